package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C27", Level: "exploration", Race: true, Quick: 1400, Thorough: 15000, Run: runC27,
		Rule: "2-8 goroutines giving functions to one synchronized batch, found in their contexts: each function finds itself alone (unsynchronized state under the race detector, and a count with yields), reads through the batch what the earlier ones wrote, compared with a model, writes rows and keys, and returns nil or an error, panics or exits, in any order, also inside a function of another synchronized batch and with a commit in the middle; the database before and after the commit is compared with the combined effect; and trees of derived contexts with both kinds of batches, nil ones, cancellations, time limits and other values, looked up from several goroutines; non-trivial: functions of different goroutines alternated at least 3 times"})
}

type c27Err struct{ g, i int }

func (e *c27Err) Error() string { return fmt.Sprintf("function %d of %d", e.i, e.g) }

type c27Val struct{ g, i int }

// c27Sync is a synchronized batch and what is known about it. Only functions
// given to it touch the fields, except inside.
type c27Sync struct {
	c      *Case
	name   string
	sb     *bond.SyncBatch
	b      bond.Batch
	rw     bool
	h, o   *Hist
	base   map[string]string // keys in the database
	raw    map[string]string // and with the batch
	order  []int
	calls  int
	inside atomic.Int32
}

func newC27Sync(h *Hist, name string) *c27Sync {
	x := &c27Sync{c: h.c, name: name, h: h, raw: map[string]string{}, base: map[string]string{}}
	if x.rw = h.r.Intn(3) > 0; x.rw {
		x.o, x.b = h.pending(0)
		x.o.unsaf = true
	} else {
		x.b = h.e.db.Batch(bond.BatchTypeWriteOnly)
	}
	for i := 0; i < 6; i++ {
		k := fmt.Sprint(name, i)
		x.raw[k], x.base[k] = "old", "old"
		h.c.Must(h.e.db.Set(bond.NewUserKey(k), []byte("old"), bond.Sync), "set")
	}
	x.sb = bond.NewSyncBatch(x.b)
	return x
}

// work is what a function given to the synchronized batch does.
func (x *c27Sync) work(b bond.Batch, g int, r *rand.Rand) {
	c := x.c
	if n := x.inside.Add(1); n != 1 {
		c.Fail("overlap", "%d functions given to one synchronized batch run at once", n)
	}
	defer x.inside.Add(-1)
	if b != x.b {
		c.Fail("batch", "a function got another batch than the one of its synchronized batch")
	}
	x.calls++
	x.order = append(x.order, g)
	c.Count("functions", 1)
	pause := func() {
		switch r.Intn(6) {
		case 0:
			time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
		case 1, 2:
			runtime.Gosched()
		}
		if n := x.inside.Load(); n != 1 {
			c.Fail("overlap", "%d functions given to one synchronized batch run at once", n)
		}
	}
	pause()
	if x.rw {
		k := fmt.Sprint(x.name, r.Intn(6))
		if got := x.get(b, k); got != x.raw[k] {
			c.Fail("visible", "a function finds %q in the key %s, an earlier one left %q there", got, k, x.raw[k])
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		k := fmt.Sprint(x.name, r.Intn(6))
		if r.Intn(4) == 0 {
			c.Must(b.Delete(bond.NewUserKey(k), bond.Sync), "delete")
			delete(x.raw, k)
		} else {
			v := fmt.Sprint(x.calls)
			c.Must(b.Set(bond.NewUserKey(k), []byte(v), bond.Sync), "set")
			x.raw[k] = v
		}
		pause()
	}
	if !x.rw {
		return
	}
	x.o.r = r
	for i := r.Intn(3); i > 0; i-- {
		if r.Intn(2) == 0 {
			x.o.step(func(key, f string, a ...any) { c.Fail("visible", f, a...) })
		} else {
			op := x.o.genRead(nil)
			diff, err := op.run(bg, b)
			if err != nil || diff != "" {
				c.Fail("visible", "%s in a function: %v %s", op.name, err, diff)
			}
			c.Count("reads", 1)
		}
		pause()
	}
}

func (x *c27Sync) get(src bond.Getter, k string) string {
	v, cl, err := src.Get(bond.NewUserKey(k))
	if err != nil {
		if isNotFound(err) {
			return ""
		}
		x.c.Fail("read", "Get of %s failed: %v", k, err)
	}
	defer cl.Close()
	return string(v)
}

// stored compares the database with the expected content.
func (x *c27Sync) stored(when string, raw map[string]string, m *Model) {
	for i := 0; i < 6; i++ {
		k := fmt.Sprint(x.name, i)
		if got := x.get(x.h.e.db, k); got != raw[k] {
			x.c.Fail("combined", "%s the key %s holds %q, want %q", when, k, got, raw[k])
		}
	}
	if a, b := x.h.e.keySpaceDiff(m); a+b != "" {
		x.c.Fail("combined", "%s: %s%s", when, a, b)
	}
}

// commit commits inside a function and makes the batch empty again.
func (x *c27Sync) commit(b bond.Batch) {
	if err := b.Commit(bond.Sync); err != nil {
		x.c.Fail("commit", "commit in a function failed: %v", err)
	}
	b.Reset()
	x.base = map[string]string{}
	for k, v := range x.raw {
		x.base[k] = v
	}
	if x.rw {
		x.h.m = x.o.m.Clone()
	}
	x.stored("after a commit", x.base, x.h.m)
	x.c.Count("commits-inside", 1)
}

func runC27(c *Case) {
	if c.R.Intn(4) == 0 {
		c27Contexts(c)
		return
	}
	r := c.R
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR)})
	var xs []*c27Sync
	for i := 0; i < 1+r.Intn(2); i++ {
		def := randTDef(c, byte(10+i), 1+r.Intn(3))
		def.pkFieldsOf()
		h := &Hist{c: c, e: e, t: newTab(e.db, def), m: newModel(def), r: r,
			p: &Profile{IDs: idPool(r, 5+r.Intn(20)), Small: true, Zero: 50}}
		h.fill()
		xs = append(xs, newC27Sync(h, string(rune('a'+i))))
	}
	n, k := 2+r.Intn(7), 3+r.Intn(6)
	c.Logf("%d goroutines, %d calls each, %d synchronized batches, read-write %v", n, k, len(xs), xs[0].rw)
	ctx := context.WithValue(bond.ContextWithSyncBatch(bg, xs[len(xs)-1].sb), c27Val{1, 1}, "x")
	c27Watch(c, func() {
		c.Par(n, func(g int, r *rand.Rand) {
			ctx := ctx
			for i := 0; i < k; i++ {
				x := pick(r, xs)
				if r.Intn(3) == 0 {
					ctx = context.WithValue(ctx, c27Val{g, i}, g)
				}
				sub, cancel := context.WithCancel(bond.ContextWithSyncBatch(ctx, x.sb))
				if r.Intn(2) == 0 {
					cancel()
				}
				sb := bond.ContextRetrieveSyncBatch(sub)
				cancel()
				if sb != x.sb {
					c.Fail("context", "a context holds another synchronized batch")
				}
				x.call(sb, g, i, r, xs)
				c.Eval(1)
			}
		})
	})
	for _, x := range xs {
		x.stored("before the commit", x.base, x.h.m)
		switches := 0
		for i := 1; i < len(x.order); i++ {
			if x.order[i] != x.order[i-1] {
				switches++
			}
		}
		c.Distinct(fmt.Sprint(x.order))
		c.Count("switches", switches)
		if switches >= 3 {
			c.Nontrivial()
		}
		want := x.h.m
		if x.rw {
			want = x.o.m
		}
		how := r.Intn(4)
		switch how {
		case 0, 1:
			err := x.sb.WithSync(func(b bond.Batch) error {
				if how == 0 {
					return b.Commit(bond.Sync)
				}
				return e.db.Apply(b, bond.Sync)
			})
			if err != nil && !(how == 1 && x.b.Empty()) {
				c.Fail("commit", "the commit failed: %v", err)
			}
		case 2:
			other := e.db.Batch(bond.BatchTypeReadWrite)
			if !x.b.Empty() {
				c.Must(other.Apply(x.b, bond.Sync), "apply")
				c.Must(other.Commit(bond.Sync), "commit")
			}
			_ = other.Close()
		default:
			want, x.raw = x.h.m, x.base
		}
		c.Must(x.b.Close(), "close")
		x.stored("in the end", x.raw, want)
	}
	c.Must(e.close(), "close")
}

// call gives a function to the synchronized batch.
func (x *c27Sync) call(sb *bond.SyncBatch, g, i int, r *rand.Rand, xs []*c27Sync) {
	c := x.c
	end := r.Intn(12)
	ran := 0
	f := func(b bond.Batch) { x.work(b, g, r); ran++ }
	switch {
	case end < 4:
		if err := sb.WithSync(func(b bond.Batch) error { f(b); return nil }); err != nil {
			c.Fail("outcome", "a function returned nil, its caller got %v", err)
		}
	case end < 7:
		var want error = &c27Err{g, i}
		if r.Intn(3) == 0 {
			want = pick(r, []error{context.Canceled, bond.ErrNotFound, errors.New("x"), fmt.Errorf("in f: %w", want)})
		}
		err := sb.WithSync(func(b bond.Batch) error { f(b); return want })
		if err != want {
			c.Fail("outcome", "a function returned %v, its caller got %v", want, err)
		}
		c.Count("errors", 1)
	case end == 7, end == 8:
		var val any = c27Val{g, i}
		if end == 8 {
			val = &c27Err{g, i}
		}
		func() {
			defer func() {
				switch v := recover(); v.(type) {
				case failure, harnessErr, caseStop:
					panic(v)
				default:
					if v != val {
						c.Fail("outcome", "a function panicked with %v, its caller got %v", val, v)
					}
				}
			}()
			_ = sb.WithSync(func(b bond.Batch) error { f(b); panic(val) })
			c.Fail("outcome", "the panic of a function was lost")
		}()
		c.Count("panics", 1)
	case end == 9: // the goroutine ends inside the function
		var bad any
		done := make(chan bool)
		go func() {
			exited := true
			defer close(done)
			defer func() {
				if v := recover(); v != nil {
					bad = v
				} else if !exited {
					bad = failure{"outcome", "a goroutine ending in a function went on"}
				}
			}()
			_ = sb.WithSync(func(b bond.Batch) error { f(b); runtime.Goexit(); return nil })
			exited = false
		}()
		<-done
		if bad != nil {
			panic(bad)
		}
		c.Count("exits", 1)
	case end == 10 && x != xs[len(xs)-1]: // inside the function, one for the other batch
		o := xs[len(xs)-1]
		want := &c27Err{g, i}
		err := sb.WithSync(func(b bond.Batch) error {
			f(b)
			return o.sb.WithSync(func(b bond.Batch) error { o.work(b, g, r); return want })
		})
		if err != error(want) {
			c.Fail("outcome", "a function returned %v, its caller got %v", want, err)
		}
		c.Count("nested", 1)
	default:
		err := sb.WithSync(func(b bond.Batch) error {
			f(b)
			if r.Intn(3) == 0 {
				x.commit(b)
			}
			return nil
		})
		if err != nil {
			c.Fail("outcome", "a function returned nil, its caller got %v", err)
		}
	}
	if ran != 1 {
		c.Fail("outcome", "a function ran %d times in a call", ran)
	}
}

// c27Watch fails when f does not end.
func c27Watch(c *Case, f func()) {
	var bad any
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() { bad = recover() }()
		f()
	}()
	select {
	case <-done:
		if bad != nil {
			panic(bad)
		}
	case <-time.After(40 * time.Second):
		buf := make([]byte, 1<<20)
		st := string(buf[:runtime.Stack(buf, true)])
		at := strings.Index(st, "WithSync")
		if at < 0 {
			c.Harness("functions did not end:\n%s", clipS(st))
		}
		c.Fail("stuck", "functions given to a synchronized batch do not run (an earlier one failed or panicked)")
	}
}

type c27Node struct {
	ctx  context.Context
	b    bond.Batch
	sb   *bond.SyncBatch
	val  any
	name string
}

// wrapBatch is a batch of the user's own.
type c27Batch struct {
	bond.Batch
	n int
}

// c27Contexts derives contexts and looks up what each of them holds.
func c27Contexts(c *Case) {
	r := c.R
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR)})
	var bs []bond.Batch
	var sbs []*bond.SyncBatch
	for i := 0; i < 4; i++ {
		b := e.db.Batch(pick(r, []bond.BatchType{bond.BatchTypeReadWrite, bond.BatchTypeWriteOnly}))
		defer b.Close()
		bs = append(bs, b)
		sbs = append(sbs, bond.NewSyncBatch(b))
	}
	bs = append(bs, &c27Batch{bs[0], 1}, nil)
	sbs = append(sbs, bond.NewSyncBatch(bs[0]), nil)
	nodes := []c27Node{{ctx: bg, name: "background"}, {ctx: context.TODO(), name: "todo"}}
	for i := 0; i < 60; i++ {
		p := nodes[r.Intn(len(nodes))]
		if r.Intn(2) == 0 {
			p = nodes[len(nodes)-1]
		}
		n := p
		switch r.Intn(8) {
		case 0, 1:
			k := r.Intn(len(bs))
			n.ctx, n.b, n.name = bond.ContextWithBatch(p.ctx, bs[k]), bs[k], p.name+fmt.Sprint(" batch", k)
		case 2, 3:
			k := r.Intn(len(sbs))
			n.ctx, n.sb, n.name = bond.ContextWithSyncBatch(p.ctx, sbs[k]), sbs[k], p.name+fmt.Sprint(" sync", k)
		case 4:
			ctx, cancel := context.WithCancel(p.ctx)
			if r.Intn(2) == 0 {
				cancel()
			} else {
				defer cancel()
			}
			n.ctx, n.name = ctx, p.name+" cancel"
		case 5:
			ctx, cancel := context.WithTimeout(p.ctx, time.Duration(r.Intn(3)-1)*time.Hour)
			defer cancel()
			n.ctx, n.name = ctx, p.name+" timeout"
		case 6: // other values, also batches under keys of the user's
			n.val = pick(r, []any{i, bs[0], sbs[0], nil, "x"})
			n.ctx, n.name = context.WithValue(p.ctx, c27Val{}, n.val), p.name+" value"
		case 7:
			n.ctx, n.name = context.WithValue(p.ctx, fmt.Sprint("batch", i), bs[0]), p.name+" string-value"
		}
		nodes = append(nodes, n)
		c.Distinct(n.name)
	}
	look := func(r *rand.Rand) {
		for i := 0; i < 80; i++ {
			n := nodes[r.Intn(len(nodes))]
			if b := bond.ContextRetrieveBatch(n.ctx); b != n.b {
				c.Fail("context", "the context [%s] gives the batch %v, want %v", n.name, c27Name(bs, b), c27Name(bs, n.b))
			}
			if s := bond.ContextRetrieveSyncBatch(n.ctx); s != n.sb {
				c.Fail("context", "the context [%s] gives another synchronized batch", n.name)
			}
			if n.ctx.Value(c27Val{}) != n.val {
				c.Fail("context", "the context [%s] lost another value", n.name)
			}
			c.Eval(1)
			c.Count("look-ups", 1)
		}
	}
	look(r)
	c27Watch(c, func() { c.Par(2+r.Intn(4), func(_ int, r *rand.Rand) { look(r) }) })
	// what was found is the batch itself
	for i, n := range nodes {
		b := bond.ContextRetrieveBatch(n.ctx)
		if b == nil {
			continue
		}
		if b.ID() != n.b.ID() || b.Type() != n.b.Type() {
			c.Fail("context", "the context [%s] gives another batch", n.name)
		}
		before := n.b.Len()
		c.Must(b.Set(bond.NewUserKey(fmt.Sprint("n", i)), []byte("v"), bond.Sync), "set")
		if n.b.Len() == before {
			c.Fail("context", "a write through the batch of the context [%s] isn't in the batch put there", n.name)
		}
	}
	c.Nontrivial()
}

func c27Name(bs []bond.Batch, b bond.Batch) string {
	for i := range bs {
		if bs[i] == b {
			return fmt.Sprint("batch", i)
		}
	}
	return "unknown"
}
