package harness

import (
	"errors"
	"fmt"
	"io"
	stdnet "net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/cybergarage/go-sqlparser/sql/net"
	"github.com/cybergarage/go-tracing/tracer"
	"github.com/google/uuid"
	"pgregory.net/rapid"
)

// fakeConn is a network connection which counts its closings and may refuse some.
type fakeConn struct {
	stdnet.Conn
	mu     sync.Mutex
	refuse int // the number of closings to refuse
	tried  int
	closed int
	wrote  []byte
}

var errRefused = errors.New("refused")

func (f *fakeConn) Close() error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.tried++
	if f.refuse > 0 {
		f.refuse--
		return errRefused
	}
	f.closed++
	return nil
}

func (f *fakeConn) Write(b []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.wrote = append(f.wrote, b...)
	return len(b), nil
}

func (f *fakeConn) Read(b []byte) (int, error) { return 0, io.EOF }

// connModel is the expected state of one connection.
type connModel struct {
	c       net.Conn
	f       *fakeConn
	id      uint64
	old     []*wrapped // objects it was registered by before
	uuid    uuid.UUID
	user    string
	db      string
	schemas []string
	closed  bool
	tried   int
	refuse  int
}

func (m *connModel) check(t *rapid.T, log []string) {
	t.Helper()
	if m.c.ID() != m.id || m.c.UUID() != m.uuid {
		t.Fatalf("%s\nthe identity of a connection changed", strings.Join(log, "\n"))
	}
	if m.c.User() != m.user || m.c.Database() != m.db || !sameStrings(m.c.Schemas(), m.schemas) {
		t.Fatalf("%s\nconnection %d has user %q database %q schemas %q, want %q %q %q", strings.Join(log, "\n"), m.id, m.c.User(), m.c.Database(), m.c.Schemas(), m.user, m.db, m.schemas)
	}
	wantClosed := 0
	if m.closed {
		wantClosed = 1
	}
	if m.f.closed != wantClosed || m.f.tried != m.tried {
		t.Fatalf("%s\nthe network connection of %d was closed %d times in %d attempts, want %d in %d", strings.Join(log, "\n"), m.id, m.f.closed, m.f.tried, wantClosed, m.tried)
	}
}

// close is the expected outcome of closing the connection.
func (m *connModel) close() error {
	if m.closed {
		return nil
	}
	m.tried++
	if m.refuse > 0 {
		m.refuse--
		return errRefused
	}
	m.closed = true
	return nil
}

func newConn(t *rapid.T, ids int) *connModel {
	m := &connModel{f: &fakeConn{}, schemas: []string{}}
	if chance(t, 20) {
		m.refuse = 1 + uniform(t, 3)
		m.f.refuse = m.refuse
	}
	opts := []net.ConnOption{}
	m.id = uint64(uniform(t, ids))
	switch {
	case m.id == uint64(ids-1):
		m.id = ^uint64(0)
	case chance(t, 15): // an ID that agrees with a small one in its lower bits
		m.id |= 1 << (16 + uniform(t, 48))
	}
	if m.id != 0 || chance(t, 50) {
		opts = append(opts, net.WithConnID(m.id))
	}
	if chance(t, 40) {
		m.user = plainName(t)
		opts = append(opts, net.WithConnUser(m.user))
	}
	if chance(t, 40) {
		m.db = plainName(t)
		opts = append(opts, net.WithConnDatabase(m.db))
	}
	if chance(t, 40) {
		given := vals(distinct(t, size(t, 0, 4), genPlainName))
		m.schemas = append([]string{}, given...)
		opts = append(opts, net.WithConnSchemas(given...))
		before := time.Now()
		m.c = net.NewConnWith(m.f, opts...)
		if m.c.Timestamp().Before(before.Add(-time.Second)) || m.c.Timestamp().After(time.Now().Add(time.Second)) {
			t.Fatalf("a connection of %v made at %v", m.c.Timestamp(), before)
		}
		// The caller keeps its list.
		for i := range given {
			given[i] = "overwritten"
		}
	} else {
		m.c = net.NewConnWith(m.f, opts...)
	}
	m.uuid = m.c.UUID()
	return m
}

// connOp performs one operation on a connection and updates its model.
func connOp(t *rapid.T, m *connModel) string {
	switch uniform(t, 8) {
	case 0:
		m.user = plainName(t)
		m.c.SetUser(m.user)
		return fmt.Sprintf("%d.SetUser(%q)", m.id, m.user)
	case 1:
		m.db, m.schemas = plainName(t), []string{}
		m.c.SetDatabase(m.db)
		return fmt.Sprintf("%d.SetDatabase(%q)", m.id, m.db)
	case 2, 3:
		add := []string{}
		for i, n := 0, size(t, 0, 5); i < n; i++ {
			if len(m.schemas) > 0 && chance(t, 40) {
				add = append(add, m.schemas[uniform(t, len(m.schemas))])
			} else {
				add = append(add, pick(t, commonNames...))
			}
		}
		given := append([]string{}, add...)
		m.c.SetSchemas(given...)
		for i := range given {
			given[i] = "overwritten"
		}
		for _, a := range add {
			found := false
			for _, s := range m.schemas {
				found = found || s == a
			}
			if !found {
				m.schemas = append(m.schemas, a)
			}
		}
		return fmt.Sprintf("%d.SetSchemas(%q)", m.id, add)
	case 4:
		got := m.c.Schemas()
		for i := range got {
			got[i] = "overwritten"
		}
		_ = append(got, "x")
		return fmt.Sprintf("overwrite %d.Schemas()", m.id)
	case 5:
		data := []byte(plainName(t))
		before := len(m.f.wrote)
		n, err := m.c.Write(data)
		if n != len(data) || err != nil || string(m.f.wrote[before:]) != string(data) {
			t.Fatalf("writing %q: %d %v, sent %q", data, n, err, m.f.wrote[before:])
		}
		return fmt.Sprintf("%d.Write", m.id)
	case 6:
		want := m.close()
		got := m.c.Close()
		if (got == nil) != (want == nil) || (want != nil && !errors.Is(got, want)) {
			t.Fatalf("closing %d: %v, want %v", m.id, got, want)
		}
		return fmt.Sprintf("%d.Close() = %v", m.id, want)
	default:
		ctx := tracer.NewNullTracer().StartSpan("x")
		m.c.SetSpanContext(ctx)
		if m.c.SpanContext() != ctx {
			t.Fatalf("another span context than the one set")
		}
		return fmt.Sprintf("%d.SetSpanContext", m.id)
	}
}

// wrapped is a connection behind a type of the caller's own, with its identity or another ID.
type wrapped struct {
	net.Conn
	id uint64
}

func (w *wrapped) ID() net.ConnID { return w.id }

// TestC27_Registry drives a connection manager through a random history.
func TestC27_Registry(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		cm := net.NewConnManager()
		ids := 3 + uniform(t, 6)
		pool := []*connModel{}
		reg := map[*connModel]bool{}
		log := []string{}
		byID := func(id uint64) *connModel {
			for m := range reg {
				if m.id == id {
					return m
				}
			}
			return nil
		}
		any := func() *connModel {
			if len(pool) == 0 || chance(t, 15) {
				m := newConn(t, ids)
				pool = append(pool, m)
				return m
			}
			return pool[uniform(t, len(pool))]
		}
		// registered prefers a registered connection.
		registered := func() *connModel {
			for i := 0; i < 4; i++ {
				if m := any(); reg[m] {
					return m
				}
			}
			return any()
		}
		expect := func(err error, want error) {
			t.Helper()
			if (want == nil && err != nil) || (want != nil && !errors.Is(err, want)) {
				t.Fatalf("%s\ngave %v, want %v", strings.Join(log, "\n"), err, want)
			}
		}
		conflicts, removed, closes := 0, 0, 0
		for i, n := 0, size(t, 3, 60); i < n; i++ {
			switch uniform(t, 14) {
			case 13: // an earlier or another object of the connection, perhaps with another ID
				m := registered()
				o := &wrapped{m.c, m.id}
				if len(m.old) > 0 && chance(t, 60) {
					o = m.old[uniform(t, len(m.old))]
				} else if chance(t, 60) {
					o.id = uint64(uniform(t, ids))
				}
				switch uniform(t, 3) {
				case 0:
					log = append(log, fmt.Sprintf("RemoveConn(object of #%d with id %d)", index(pool, m), o.id))
					expect(cm.RemoveConn(o), nil)
					if reg[m] {
						delete(reg, m)
						removed++
					}
				case 1:
					var want error
					if reg[m] || byID(o.id) != nil {
						want = net.ErrExist
						conflicts++
					}
					log = append(log, fmt.Sprintf("AddConn(object of #%d with id %d) want %v", index(pool, m), o.id, want))
					expect(cm.AddConn(o), want)
					if want == nil {
						m.old = append(m.old, &wrapped{m.c, m.id})
						m.c, m.id = o, o.id
						reg[m] = true
					}
				default:
					to := any()
					var want error
					switch {
					case !reg[m] || m.id != o.id:
						want = net.ErrNotExist
					case to != m && reg[to]:
						want = net.ErrExist
					case to.id != m.id && byID(to.id) != nil:
						want = net.ErrExist
					}
					if want != nil {
						conflicts++
					}
					log = append(log, fmt.Sprintf("UpdateConn(object of #%d with id %d, #%d id %d) want %v", index(pool, m), o.id, index(pool, to), to.id, want))
					expect(cm.UpdateConn(o, to.c), want)
					if want == nil {
						delete(reg, m)
						reg[to] = true
					}
				}
			case 12: // another object of the same connection
				m := registered()
				if !reg[m] {
					continue
				}
				w := &wrapped{m.c, m.id}
				if chance(t, 40) {
					w.id = uint64(uniform(t, ids))
				}
				from := registered()
				var want error
				switch {
				case chance(t, 30):
					conflicts++
					log = append(log, fmt.Sprintf("AddConn(wrapped #%d id %d) want %v", index(pool, m), w.id, net.ErrExist))
					expect(cm.AddConn(w), net.ErrExist)
				case !reg[from]:
					want = net.ErrNotExist
					fallthrough
				default:
					if want == nil && (from != m || w.id != from.id && byID(w.id) != nil) {
						want = net.ErrExist
						conflicts++
					}
					log = append(log, fmt.Sprintf("UpdateConn(#%d id %d, wrapped #%d id %d) want %v", index(pool, from), from.id, index(pool, m), w.id, want))
					expect(cm.UpdateConn(from.c, w), want)
					if want == nil {
						m.old = append(m.old, &wrapped{m.c, m.id})
						m.c, m.id = w, w.id
					}
				}
			case 0, 1, 2, 3:
				m := any()
				var want error
				if reg[m] || byID(m.id) != nil {
					want = net.ErrExist
					conflicts++
				}
				log = append(log, fmt.Sprintf("AddConn(#%d id %d) want %v", index(pool, m), m.id, want))
				expect(cm.AddConn(m.c), want)
				if want == nil {
					reg[m] = true
				}
			case 4, 5:
				from, to := registered(), any()
				var want error
				switch {
				case !reg[from]:
					want = net.ErrNotExist
				case to != from && reg[to]:
					want = net.ErrExist
				case to.id != from.id && byID(to.id) != nil:
					want = net.ErrExist
				}
				if want != nil {
					conflicts++
				}
				log = append(log, fmt.Sprintf("UpdateConn(#%d id %d, #%d id %d) want %v", index(pool, from), from.id, index(pool, to), to.id, want))
				expect(cm.UpdateConn(from.c, to.c), want)
				if want == nil {
					delete(reg, from)
					reg[to] = true
				}
			case 6:
				m := registered()
				log = append(log, fmt.Sprintf("RemoveConn(#%d id %d)", index(pool, m), m.id))
				expect(cm.RemoveConn(m.c), nil)
				delete(reg, m)
				removed++
			case 7:
				id := uint64(uniform(t, ids))
				if chance(t, 20) {
					id |= 1 << (16 + uniform(t, 48))
				}
				log = append(log, fmt.Sprintf("RemoveConnByUID(%d)", id))
				cm.RemoveConnByUID(id)
				if m := byID(id); m != nil {
					delete(reg, m)
					removed++
				}
			case 8:
				m := registered()
				log = append(log, fmt.Sprintf("RemoveConnByUUID(#%d)", index(pool, m)))
				cm.RemoveConnByUUID(m.uuid)
				delete(reg, m)
				removed++
			case 9:
				if !chance(t, 30) {
					continue
				}
				closes++
				failing := false
				for m := range reg {
					if m.close() == nil {
						delete(reg, m)
					} else {
						failing = true
					}
				}
				var want error
				if failing {
					want = errRefused
				}
				if chance(t, 50) {
					log = append(log, fmt.Sprintf("Close() want %v", want))
					expect(cm.Close(), want)
				} else {
					log = append(log, fmt.Sprintf("Stop() want %v", want))
					expect(cm.Stop(), want)
				}
			case 10:
				if chance(t, 20) {
					log = append(log, "Start()")
					expect(cm.Start(), nil)
				}
			default:
				log = append(log, connOp(t, any()))
			}
			// The registry answers like the model, in every way of asking.
			conns := cm.Conns()
			if len(conns) != len(reg) {
				t.Fatalf("%s\n%d connections, want %d", strings.Join(log, "\n"), len(conns), len(reg))
			}
			seen := map[net.Conn]bool{}
			for _, c := range conns {
				seen[c] = true
			}
			bit := uint64(1) << uniform(t, 64)
			for k, m := range pool {
				if seen[m.c] != reg[m] {
					t.Fatalf("%s\nconnection #%d listed %v, want %v", strings.Join(log, "\n"), k, seen[m.c], reg[m])
				}
				c, ok := cm.LookupConnByUUID(m.uuid)
				if ok != reg[m] || (ok && c != m.c) {
					t.Fatalf("%s\nlooking up #%d by its UUID: %v, want %v", strings.Join(log, "\n"), k, ok, reg[m])
				}
				want := byID(m.id)
				c, ok = cm.LookupConnByUID(m.id)
				if ok != (want != nil) || (ok && c != want.c) {
					t.Fatalf("%s\nlooking up the ID %d: %v, want %v", strings.Join(log, "\n"), m.id, ok, want != nil)
				}
				// IDs that agree in some of their bits are others.
				for _, id := range []uint64{m.id + 1, m.id - 1, m.id ^ 1<<32, m.id ^ 1<<63, m.id ^ bit, uint64(uint32(m.id)), uint64(uint16(m.id))} {
					want := byID(id)
					if c, ok := cm.LookupConnByUID(id); ok != (want != nil) || (ok && c != want.c) {
						t.Fatalf("%s\nlooking up the ID %d: %v, want %v", strings.Join(log, "\n"), id, ok, want != nil)
					}
				}
				m.check(t, log)
			}
			// The list belongs to the caller.
			for i := range conns {
				conns[i] = nil
			}
		}
		note(conflicts > 0 && removed > 0 && len(reg) > 0, strings.Join(log, "; "), fmt.Sprintf("closes=%d", min(closes, 3)))
	})
}

func index(pool []*connModel, m *connModel) int {
	for i, x := range pool {
		if x == m {
			return i
		}
	}
	return -1
}

// ------------------------------------------------------------- concurrency

type cmOp struct {
	Kind string
	A, B int // connections of the pool, or an ID
}

type cmOut struct {
	Err   string
	Found int // the connection found, -1 for none
	Mask  uint64
}

func (o cmOp) String() string { return fmt.Sprintf("%s(%d,%d)", o.Kind, o.A, o.B) }

// cmStep is the sequential behaviour of the manager: the state is the set of
// registered connections of the pool.
func cmStep(ids []uint64, state uint64, op cmOp) (uint64, cmOut) {
	byID := func(id uint64) int {
		for i, x := range ids {
			if state&(1<<i) != 0 && x == id {
				return i
			}
		}
		return -1
	}
	out := cmOut{Found: -1}
	switch op.Kind {
	case "add":
		if state&(1<<op.A) != 0 || byID(ids[op.A]) >= 0 {
			out.Err = "exist"
			return state, out
		}
		return state | 1<<op.A, out
	case "update":
		switch {
		case state&(1<<op.A) == 0:
			out.Err = "not exist"
			return state, out
		case op.A != op.B && state&(1<<op.B) != 0:
			out.Err = "exist"
			return state, out
		case ids[op.A] != ids[op.B] && byID(ids[op.B]) >= 0:
			out.Err = "exist"
			return state, out
		}
		return state&^(1<<op.A) | 1<<op.B, out
	case "remove", "removeUUID":
		return state &^ (1 << op.A), out
	case "removeID":
		if i := byID(uint64(op.A)); i >= 0 {
			return state &^ (1 << i), out
		}
		return state, out
	case "lookupID":
		out.Found = byID(uint64(op.A))
		return state, out
	case "lookupUUID":
		if state&(1<<op.A) != 0 {
			out.Found = op.A
		}
		return state, out
	}
	out.Mask = state
	return state, out
}

func cmModel(ids []uint64, init uint64) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return init },
		Step: func(state, input, output interface{}) (bool, interface{}) {
			next, want := cmStep(ids, state.(uint64), input.(cmOp))
			return want == output.(cmOut), next
		},
		Equal: func(a, b interface{}) bool { return a == b },
	}
}

func cmDo(cm net.ConnManager, pool []net.Conn, op cmOp) cmOut {
	out := cmOut{Found: -1}
	fail := func(err error) {
		switch {
		case err == nil:
		case errors.Is(err, net.ErrExist):
			out.Err = "exist"
		case errors.Is(err, net.ErrNotExist):
			out.Err = "not exist"
		default:
			out.Err = err.Error()
		}
	}
	find := func(c net.Conn, ok bool) {
		if !ok {
			return
		}
		out.Found = -2
		for i, p := range pool {
			if p == c {
				out.Found = i
			}
		}
	}
	switch op.Kind {
	case "add":
		fail(cm.AddConn(pool[op.A]))
	case "update":
		fail(cm.UpdateConn(pool[op.A], pool[op.B]))
	case "remove":
		fail(cm.RemoveConn(pool[op.A]))
	case "removeUUID":
		cm.RemoveConnByUUID(pool[op.A].UUID())
	case "removeID":
		cm.RemoveConnByUID(uint64(op.A))
	case "lookupID":
		find(cm.LookupConnByUID(uint64(op.A)))
	case "lookupUUID":
		find(cm.LookupConnByUUID(pool[op.A].UUID()))
	default:
		for _, c := range cm.Conns() {
			for i, p := range pool {
				if p == c {
					out.Mask |= 1 << i
				}
			}
		}
	}
	return out
}

// TestC28_Linearizable: concurrent use of a manager looks like some sequential use.
func TestC28_Linearizable(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		nIDs := 2 + uniform(t, 3)
		nPool := 2 + uniform(t, 5)
		pool := make([]net.Conn, nPool)
		ids := make([]uint64, nPool)
		for i := range pool {
			ids[i] = uint64(uniform(t, nIDs))
			pool[i] = net.NewConnWith(&fakeConn{}, net.WithConnID(ids[i]))
		}
		workers := 2 + uniform(t, 5)
		ops := make([][]cmOp, workers)
		for w := range ops {
			for i, n := 0, 2+uniform(t, 12); i < n; i++ {
				op := cmOp{Kind: pick(t, "add", "add", "add", "update", "update", "remove", "removeUUID", "removeID", "lookupID", "lookupUUID", "conns"), A: uniform(t, nPool), B: uniform(t, nPool)}
				if strings.HasSuffix(op.Kind, "ID") && !strings.HasSuffix(op.Kind, "UUID") {
					op.A = uniform(t, nIDs)
				}
				ops[w] = append(ops[w], op)
			}
		}
		key := fmt.Sprint(ids, ops)
		describe(key)
		// The same program runs under several schedules.
		for round := 0; round < 8; round++ {
			cm := net.NewConnManager()
			var init uint64
			for i := range pool {
				if i%2 == round%2 {
					next, want := cmStep(ids, init, cmOp{Kind: "add", A: i})
					if got := cmDo(cm, pool, cmOp{Kind: "add", A: i}); got != want {
						t.Fatalf("adding %d: %v, want %v", i, got, want)
					}
					init = next
				}
			}
			var clock atomic.Int64
			var wg sync.WaitGroup
			start := make(chan struct{})
			history := make([][]porcupine.Operation, workers)
			for w := range ops {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for _, op := range ops[w] {
						call := clock.Add(1)
						out := cmDo(cm, pool, op)
						history[w] = append(history[w], porcupine.Operation{ClientId: w, Input: op, Call: call, Output: out, Return: clock.Add(1)})
					}
				}()
			}
			close(start)
			wg.Wait()
			all := []porcupine.Operation{}
			for _, h := range history {
				all = append(all, h...)
			}
			// What is left is observed sequentially at the end.
			end := clock.Add(1)
			for i := range pool {
				op := cmOp{Kind: "lookupUUID", A: i}
				all = append(all, porcupine.Operation{ClientId: workers, Input: op, Call: end, Output: cmDo(cm, pool, op), Return: end + 1})
				op = cmOp{Kind: "lookupID", A: int(ids[i])}
				all = append(all, porcupine.Operation{ClientId: workers, Input: op, Call: end + 2, Output: cmDo(cm, pool, op), Return: end + 3})
				end += 4
			}
			op := cmOp{Kind: "conns"}
			all = append(all, porcupine.Operation{ClientId: workers, Input: op, Call: end, Output: cmDo(cm, pool, op), Return: end + 1})
			if porcupine.CheckOperationsTimeout(cmModel(ids, init), all, 20*time.Second) == porcupine.Illegal {
				sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
				lines := []string{}
				for _, o := range all {
					lines = append(lines, fmt.Sprintf("[%d,%d] worker %d: %v -> %+v", o.Call, o.Return, o.ClientId, o.Input, o.Output))
				}
				t.Fatalf("no sequential order explains this history (IDs %v, initially %b)\n%s", ids, init, strings.Join(lines, "\n"))
			}
		}
		note(workers > 1 && len(ops[0]) > 2, key, fmt.Sprintf("workers=%d", workers))
	})
}

// TestC28_Conn: one connection used by several goroutines.
func TestC28_Conn(t *testing.T) {
	prop(t, 50, func(t *rapid.T) {
		f := &fakeConn{refuse: uniform(t, 3)}
		refuse := f.refuse
		c := net.NewConnWith(f, net.WithConnID(7), net.WithConnTracer(tracer.NewNullTracer().StartSpan("x")))
		workers := 2 + uniform(t, 4)
		users := map[string]bool{"": true}
		dbs := map[string]bool{"": true}
		schemas := map[string]bool{}
		progs := make([][]cmOp, workers)
		closes := 0
		for w := range progs {
			for i, n := 0, 1+uniform(t, 8); i < n; i++ {
				op := cmOp{Kind: pick(t, "user", "db", "schemas", "read", "read", "span", "startspan", "close"), A: uniform(t, 5)}
				progs[w] = append(progs[w], op)
				switch op.Kind {
				case "user":
					users[fmt.Sprintf("u%d", op.A)] = true
				case "db":
					dbs[fmt.Sprintf("d%d", op.A)] = true
				case "schemas":
					schemas[fmt.Sprintf("s%d", op.A)] = true
				case "close":
					closes++
				}
			}
		}
		key := fmt.Sprint(progs)
		describe(key)
		cm := net.NewConnManager()
		if err := cm.AddConn(c); err != nil {
			t.Fatal(err)
		}
		uid := c.UUID()
		var wg sync.WaitGroup
		errs := make([]error, workers)
		start := make(chan struct{})
		var okCloses atomic.Int64
		for w := range progs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, op := range progs[w] {
					switch op.Kind {
					case "user":
						c.SetUser(fmt.Sprintf("u%d", op.A))
					case "db":
						c.SetDatabase(fmt.Sprintf("d%d", op.A))
					case "schemas":
						c.SetSchemas(fmt.Sprintf("s%d", op.A), fmt.Sprintf("s%d", op.A))
					case "span":
						c.SetSpanContext(tracer.NewNullTracer().StartSpan("y"))
					case "startspan":
						c.StartSpan("z")
						_ = c.Span()
						c.FinishSpan()
					case "close":
						if c.Close() == nil {
							okCloses.Add(1)
						}
					default:
						if u := c.User(); !users[u] {
							errs[w] = fmt.Errorf("user %q", u)
						}
						if d := c.Database(); !dbs[d] {
							errs[w] = fmt.Errorf("database %q", d)
						}
						seen := map[string]bool{}
						for _, s := range c.Schemas() {
							if !schemas[s] || seen[s] {
								errs[w] = fmt.Errorf("schema %q of %q", s, c.Schemas())
							}
							seen[s] = true
						}
						if c.ID() != 7 || c.UUID() != uid {
							errs[w] = fmt.Errorf("identity %d %v", c.ID(), c.UUID())
						}
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				t.Fatalf("%s: %v", key, err)
			}
		}
		want := closes - refuse
		if want < 0 {
			want = 0
		}
		if int(okCloses.Load()) != want || f.closed > 1 || (want > 0) != (f.closed == 1) {
			t.Fatalf("%s: %d of %d closings succeeded (%d refused), the network connection closed %d times", key, okCloses.Load(), closes, refuse, f.closed)
		}
		note(workers > 1, key, "conn")
	})
}

// TestC28_Close: connections added while the manager closes are closed or still registered.
func TestC28_Close(t *testing.T) {
	prop(t, 30, func(t *rapid.T) {
		n := 2 + uniform(t, 12)
		before := uniform(t, n)
		fs := make([]*fakeConn, n)
		pool := make([]net.Conn, n)
		refusing := 0
		for i := range pool {
			fs[i] = &fakeConn{}
			if chance(t, 20) {
				fs[i].refuse = 1 << 30
				refusing++
			}
			pool[i] = net.NewConnWith(fs[i], net.WithConnID(uint64(i)))
		}
		closers := 1 + uniform(t, 2)
		key := fmt.Sprint(n, before, closers, refusing)
		cm := net.NewConnManager()
		for i := 0; i < before; i++ {
			if err := cm.AddConn(pool[i]); err != nil {
				t.Fatal(err)
			}
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := 0; k < closers; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				_ = cm.Close()
			}()
		}
		errs := make([]error, n)
		for i := before; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				errs[i] = cm.AddConn(pool[i])
			}()
		}
		close(start)
		wg.Wait()
		for i := range pool {
			_, ok := cm.LookupConnByUUID(pool[i].UUID())
			_, okID := cm.LookupConnByUID(uint64(i))
			refuses := fs[i].refuse > 0
			switch {
			case errs[i] != nil:
				t.Fatalf("%s: adding %d: %v", key, i, errs[i])
			case ok != okID:
				t.Fatalf("%s: connection %d found by its UUID: %v, by its ID: %v", key, i, ok, okID)
			case i < before && !refuses && (ok || fs[i].closed != 1):
				t.Fatalf("%s: connection %d registered %v and closed %d times after Close", key, i, ok, fs[i].closed)
			case refuses && !ok:
				t.Fatalf("%s: connection %d could not be closed and is lost", key, i)
			case ok == (fs[i].closed == 1):
				t.Fatalf("%s: connection %d registered %v and closed %d times", key, i, ok, fs[i].closed)
			}
		}
		note(before > 0, key, "close")
	})
}

// hooked is a connection that does something while it is closed.
type hooked struct {
	net.Conn
	id     uint64
	closed int
	hook   func()
}

func (h *hooked) ID() net.ConnID { return h.id }

func (h *hooked) Close() error {
	h.closed++
	if f := h.hook; f != nil {
		h.hook = nil
		f()
	}
	return nil
}

// TestC28_DuringClose: what happens to the registry while it closes a connection
// (the schedule in which the other goroutine runs at exactly that point) loses
// no connection.
func TestC28_DuringClose(t *testing.T) {
	prop(t, 15, func(t *rapid.T) {
		cm := net.NewConnManager()
		current := map[uuid.UUID]*hooked{} // what is registered, or closed by the registry
		touched := map[uuid.UUID]bool{}
		pool := []*hooked{}
		ids := uint64(0)
		fresh := func() *hooked {
			ids++
			h := &hooked{Conn: net.NewConnWith(&fakeConn{}), id: ids}
			pool = append(pool, h)
			return h
		}
		log := []string{}
		for i, n := 0, 1+size(t, 0, 6); i < n; i++ {
			h := fresh()
			if err := cm.AddConn(h); err != nil {
				t.Fatal(err)
			}
			current[h.UUID()] = h
		}
		first := append([]*hooked{}, pool...)
		for i, h := range first {
			if chance(t, 30) {
				continue
			}
			op, other := uniform(t, 6), first[uniform(t, len(first))]
			sameID := chance(t, 50)
			h.hook = func() {
				switch op {
				case 0:
					c := fresh()
					log = append(log, fmt.Sprintf("closing %d: AddConn(%d)", i+1, c.id))
					if err := cm.AddConn(c); err == nil {
						current[c.UUID()] = c
					}
				case 1, 2: // another object of the same connection
					to := &hooked{Conn: h.Conn, id: h.id}
					if !sameID {
						ids++
						to.id = ids
					}
					pool = append(pool, to)
					log = append(log, fmt.Sprintf("closing %d: UpdateConn(itself, object with id %d)", i+1, to.id))
					if err := cm.UpdateConn(h, to); err == nil {
						current[h.UUID()] = to
						touched[h.UUID()] = true
					}
				case 3:
					to := fresh()
					from := pick2(sameID, h, other)
					log = append(log, fmt.Sprintf("closing %d: UpdateConn(%d, %d)", i+1, from.id, to.id))
					if err := cm.UpdateConn(from, to); err == nil {
						delete(current, from.UUID())
						current[to.UUID()] = to
						touched[from.UUID()], touched[to.UUID()] = true, true
					}
				default:
					c := pick2(sameID, h, other)
					log = append(log, fmt.Sprintf("closing %d: RemoveConn(%d)", i+1, c.id))
					if err := cm.RemoveConn(c); err == nil {
						delete(current, c.UUID())
						touched[c.UUID()] = true
					}
				}
			}
		}
		if err := cm.Close(); err != nil {
			t.Fatalf("%s\nClose fails: %v", strings.Join(log, "\n"), err)
		}
		for _, c := range cm.Conns() {
			a, _ := cm.LookupConnByUUID(c.UUID())
			b, _ := cm.LookupConnByUID(c.ID())
			if a != c || b != c {
				t.Fatalf("%s\nthe listed connection with id %d is not found by its UUID (%v) or its ID (%v)", strings.Join(log, "\n"), c.ID(), a == c, b == c)
			}
		}
		for _, h := range pool {
			c, ok := cm.LookupConnByUUID(h.UUID())
			if current[h.UUID()] == h && h.closed == 0 && (!ok || c != net.Conn(h)) {
				t.Fatalf("%s\nthe connection with id %d is lost: neither registered nor closed", strings.Join(log, "\n"), h.id)
			}
			if byID, ok := cm.LookupConnByUID(h.id); ok {
				if again, ok := cm.LookupConnByUUID(byID.UUID()); !ok || again != byID {
					t.Fatalf("%s\nthe connection with id %d is found by its ID only", strings.Join(log, "\n"), h.id)
				}
			}
		}
		for i, h := range first {
			if touched[h.UUID()] {
				continue
			}
			if _, ok := cm.LookupConnByUUID(h.UUID()); ok || h.closed != 1 {
				t.Fatalf("%s\nconnection %d registered %v and closed %d times after Close", strings.Join(log, "\n"), i+1, ok, h.closed)
			}
		}
		note(len(log) > 0, fmt.Sprint(len(first))+": "+strings.Join(log, "; "), "during-close")
	})
}

func pick2(first bool, a, b *hooked) *hooked {
	if first {
		return a
	}
	return b
}
