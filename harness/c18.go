package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync/atomic"
	"syscall"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/cockroachdb/pebble/vfs/errorfs"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/bloom"
)

func init() {
	register(&Check{ID: "C18", Level: "fault_enumeration", Quick: 1000, Thorough: 20000, Run: runC18,
		Rule: "table content in many small sstables with a cache of no size; every kind of read, write, rebuild, filter initialization and opening run with its k-th storage read failing (once or from there on), k drawn from the reads counted in a run without faults; the outcome must be an error that isn't not-found or the correct result; failed writes must leave the key space unchanged; everything answers correctly afterwards; non-trivial: at least 10 faults hit an operation",
	})
}

// readFaults fails storage reads.
type readFaults struct {
	armed   atomic.Bool
	at      int64 // the first failing read
	persist bool
	err     error
	n       atomic.Int64
	fired   atomic.Int64
	paths   atomic.Value
}

func (f *readFaults) wrap(fs vfs.FS) vfs.FS {
	return errorfs.Wrap(fs, errorfs.InjectorFunc(func(op errorfs.Op) error {
		if !f.armed.Load() {
			return nil
		}
		switch op.Kind {
		case errorfs.OpFileRead, errorfs.OpFileReadAt, errorfs.OpOpen:
		default:
			return nil
		}
		n := f.n.Add(1) - 1
		if f.at >= 0 && (n == f.at || f.persist && n > f.at) {
			f.fired.Add(1)
			f.paths.Store(op.Path)
			return f.err
		}
		return nil
	}))
}

// run runs fn with the k-th read failing and returns how many failed.
func (f *readFaults) run(at int64, persist bool, err error, fn func()) int64 {
	f.at, f.persist, f.err = at, persist, err
	f.n.Store(0)
	f.fired.Store(0)
	f.armed.Store(true)
	func() {
		defer f.armed.Store(false)
		fn()
	}()
	return f.fired.Load()
}

type c18 struct {
	c    *Case
	h    *Hist
	f    *readFaults
	hits int
	lazy *bond.FilterInitializable
}

var readErrs = []error{errorfs.ErrInjected, io.ErrUnexpectedEOF, syscall.EIO}

func runC18(c *Case) {
	r := c.R
	def := randTDef(c, pick(r, []byte{1, 3, 254, 255}), 1+r.Intn(4))
	x := &c18{c: c, f: &readFaults{}}
	if r.Intn(4) == 0 {
		x.lazy = &bond.FilterInitializable{Filter: newBloom(r)}
		def.Filter = x.lazy
	}
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR), Tiny: true, NoAuto: true, FS: x.f.wrap(vfs.NewMem()), Format: bond.DefaultPebbleOptions().FormatMajorVersion})
	h := &Hist{c: c, e: e, t: newTab(e.db, def), m: newModel(def), r: r, noRef: true,
		p: &Profile{IDs: idPool(r, 20+r.Intn(60)), Small: r.Intn(4) > 0, Zero: 40}}
	x.h = h
	bad := func(key, f string, a ...any) { c.Harness(f, a...) }
	for k := 1 + r.Intn(4); k > 0; k-- {
		rs := h.absent(1 + r.Intn(len(h.p.IDs)))
		c.Must(h.t.Insert(bg, rs, nil), "insert")
		h.m.Put(rs)
		h.step(bad)
		if r.Intn(4) > 0 {
			e.flush()
		}
		if r.Intn(4) == 0 {
			e.compact()
		}
	}
	c.Logf("%s, %d rows, filter %v", def.describe(), len(h.m.Rows), x.lazy != nil)
	if x.lazy != nil {
		x.initFilter()
	}
	h.noRef = false
	for i := 0; i < 14; i++ {
		if r.Intn(5) == 0 {
			x.reopen()
		}
		switch k := r.Intn(20); {
		case k < 10:
			x.read()
		case k < 16:
			x.write()
		case k == 16:
			x.reindex()
		case k == 17:
			x.rawGet()
		case k == 18:
			e.flush()
			x.open()
		default:
			if x.lazy != nil {
				x.initFilter()
			} else {
				e.flush()
				if r.Intn(3) == 0 {
					e.compact()
				}
			}
		}
	}
	x.keys("in the end")
	if x.hits >= 10 {
		c.Nontrivial()
	}
	if c.Idx == 0 {
		x.exist()
	}
}

func (x *c18) keys(when string) {
	if a, b := x.h.e.keySpaceDiff(x.h.m); a+b != "" {
		x.c.Fail("effect", "%s: %s%s", when, a, b)
	}
}

// ks draws the faults to try for an operation with n reads.
func (x *c18) ks(n int64, max int) []int64 {
	var out []int64
	if n <= int64(max) {
		for k := int64(0); k < n; k++ {
			out = append(out, k)
		}
		return out
	}
	for i := 0; i < max; i++ {
		out = append(out, x.c.R.Int63n(n))
	}
	return out
}

// notAbsent fails when the error claims that something isn't there or is.
func (x *c18) notAbsent(what string, err error) {
	if errors.Is(err, bond.ErrNotFound) || strings.Contains(err.Error(), "not found") || strings.Contains(err.Error(), "already exist") {
		x.c.Fail("absence", "%s reports %q when the storage failed", what, err)
	}
}

func (x *c18) hit(way string, n int64) {
	if n > 0 {
		x.hits++
		x.c.Count("faults-"+way, 1)
		p, _ := x.f.paths.Load().(string)
		if i := strings.LastIndexByte(p, '.'); i >= 0 {
			x.c.Count("faults-on-"+p[i+1:], 1)
		}
	}
}

func (x *c18) reopen() {
	h := x.h
	x.c.Must(h.e.close(), "close")
	x.c.Must(h.e.open(), "open")
	x.newTab()
}

func (x *c18) newTab() {
	h := x.h
	if x.lazy != nil {
		x.lazy = &bond.FilterInitializable{Filter: newBloom(x.c.R)}
		h.m.Def.Filter = x.lazy
	}
	h.t = newTab(h.e.db, h.m.Def)
	if x.lazy != nil {
		x.initFilter()
	}
}

func (x *c18) read() {
	c, r, h := x.c, x.c.R, x.h
	q := h
	var b bond.Batch
	if r.Intn(3) == 0 {
		q, b = h.pending(1 + r.Intn(3))
		defer b.Close()
	}
	for k := 0; k < 3; k++ {
		op := q.genRead(nil)
		clean := func(when string) {
			diff, err := op.run(bg, b)
			if err != nil {
				c.Fail("after", "%s %s: %v", op.name, when, err)
			}
			if diff != "" {
				c.Fail("after", "%s %s: %s", op.name, when, diff)
			}
		}
		x.f.run(-1, false, nil, func() { clean("without a fault") })
		n := x.f.n.Load()
		c.Logf("%s: %d rows, %d reads", op.name, op.rows, n)
		for _, at := range x.ks(n, 5) {
			var diff string
			var err error
			persist := r.Intn(2) == 0
			fired := x.f.run(at, persist, pick(r, readErrs), func() { diff, err = op.run(bg, b) })
			c.Eval(1)
			x.hit(op.way, fired)
			c.Distinct(fmt.Sprint(op.way, fired > 0, persist, err != nil, minI(int(at), 30), minI(op.rows, 20)))
			switch {
			case err == nil && diff != "":
				c.Fail("wrong", "%s with %d failed reads (from the %d. of %d, persistent %v) succeeds with a wrong result: %s", op.name, fired, at, n, persist, diff)
			case err != nil && fired == 0:
				c.Fail("after", "%s without a fault: %v", op.name, err)
			case err != nil && diff != "" && op.way != "for-each" && op.way != "iterator":
				c.Fail("wrong", "%s: %s", op.name, diff)
			case err != nil:
				x.notAbsent(op.name, err)
				c.Count("errors", 1)
			}
			if diff != "" {
				c.Fail("wrong", "%s with %d failed reads hands out wrong entries: %s (%v)", op.name, fired, diff, err)
			}
			if r.Intn(4) == 0 {
				clean("after a fault")
			}
		}
	}
}

func (x *c18) write() {
	c, r, h := x.c, x.c.R, x.h
	for k := 0; k < 3; k++ {
		w := genCall(h, 1+r.Intn(6), r.Intn(3) == 0)
		var b bond.Batch
		if r.Intn(4) == 0 {
			b = h.e.db.Batch(bond.BatchTypeReadWrite)
		}
		var err error
		at := int64(r.Intn(3))
		if r.Intn(3) == 0 {
			at = int64(r.Intn(30))
		}
		persist := r.Intn(2) == 0
		fired := x.f.run(at, persist, pick(r, readErrs), func() { err = w.run(bg, h.t, b) })
		c.Eval(1)
		x.hit("write", fired)
		c.Distinct(fmt.Sprint(w.name, fired > 0, persist, err != nil, at))
		what := fmt.Sprintf("%s of %s with %d failed reads (from the %d., persistent %v)", w.name, ids(w.rows), fired, at, persist)
		c.Logf("%s -> %v", what, err)
		if b != nil {
			if err == nil {
				c.Must(b.Commit(bond.Sync), "commit")
			}
			_ = b.Close()
		}
		switch {
		case err == nil && w.bad:
			c.Fail("effect", "%s succeeds, it must be refused", what)
		case err == nil:
			w.model(h.m)
		case w.bad:
		case fired == 0:
			c.Fail("after", "%s: %v", what, err)
		default:
			x.notAbsent(what, err)
			c.Count("errors", 1)
		}
		x.keys("after " + what)
	}
}

func (x *c18) reindex() {
	c, r, h := x.c, x.c.R, x.h
	var is []byte
	for _, i := range h.m.Def.Idx {
		is = append(is, i.ID)
	}
	// a stale entry to be removed
	var n int64
	x.f.run(-1, false, nil, func() {
		if err := h.t.ReIndex(is); err != nil {
			c.Fail("after", "ReIndex without a fault: %v", err)
		}
		n = x.f.n.Load()
	})
	for _, at := range x.ks(n, 4) {
		i := h.m.Def.Idx[0]
		st := h.p.row(r)
		st.ID = 1 << 60
		c.Must(h.e.db.Backend().Set(h.m.Def.idxKey(i, &st), nil, pebble.NoSync), "set")
		var err error
		fired := x.f.run(at, r.Intn(2) == 0, pick(r, readErrs), func() { err = h.t.ReIndex(is) })
		x.hit("reindex", fired)
		c.Eval(1)
		if err == nil {
			x.keys(fmt.Sprintf("ReIndex with %d failed reads succeeds", fired))
			continue
		}
		if fired == 0 {
			c.Fail("after", "ReIndex without a fault: %v", err)
		}
		x.notAbsent("ReIndex", err)
		c.Count("errors", 1)
	}
	if err := h.t.ReIndex(is); err != nil {
		c.Fail("after", "ReIndex after the fault: %v", err)
	}
	x.keys("ReIndex after the fault")
}

func (x *c18) rawGet() {
	c, r, h := x.c, x.c.R, x.h
	k := bond.NewUserKey("k")
	c.Must(h.e.db.Set(k, []byte("v"), bond.Sync), "set")
	h.e.flush()
	for at := int64(0); at < 4; at++ {
		var err error
		var v []byte
		var cl io.Closer
		fired := x.f.run(at, r.Intn(2) == 0, pick(r, readErrs), func() { v, cl, err = h.e.db.Get(k) })
		x.hit("get", fired)
		c.Eval(1)
		switch {
		case err != nil && fired == 0:
			c.Fail("after", "Get: %v", err)
		case err != nil:
			x.notAbsent("Get", err)
		case string(v) != "v":
			c.Fail("wrong", "Get gives %q", v)
		default:
			_ = cl.Close()
		}
	}
	c.Must(h.e.db.Delete(k, bond.Sync), "delete")
}

func (x *c18) open() {
	c, r, h := x.c, x.c.R, x.h
	c.Must(h.e.close(), "close")
	x.f.run(-1, false, nil, func() { c.Must(h.e.open(), "open") })
	n := x.f.n.Load()
	for _, at := range x.ks(n, 3) {
		c.Must(h.e.close(), "close")
		var err error
		fired := x.f.run(at, r.Intn(2) == 0, pick(r, readErrs), func() { err = h.e.open() })
		x.hit("open", fired)
		c.Eval(1)
		c.Logf("open with the %d. of %d reads failing: %v", at, n, err)
		if err == nil {
			x.newTab()
			x.keys(fmt.Sprintf("Open with %d failed reads succeeds", fired))
			continue
		}
		if fired == 0 {
			c.Fail("after", "Open without a fault: %v", err)
		}
		if errors.Is(err, bond.ErrNotFound) {
			c.Fail("absence", "Open reports %v", err)
		}
		if err := h.e.open(); err != nil {
			c.Fail("after", "Open after a failed one: %v", err)
		}
		x.newTab()
		x.keys("Open after a failed one")
	}
	x.newTab()
}

func (x *c18) initFilter() {
	c, r, h := x.c, x.c.R, x.h
	try := func(at int64, persist bool) error {
		h.m.Def.Filter = x.lazy
		h.t = newTab(h.e.db, h.m.Def)
		return x.lazy.Initialize(bg, h.e.db, []bond.TableScanner[any]{h.t.AnyScanner()})
	}
	var err error
	x.f.run(-1, false, nil, func() { err = try(0, false) })
	c.Must(err, "initializing the filter")
	for _, at := range x.ks(x.f.n.Load(), 3) {
		x.lazy = &bond.FilterInitializable{Filter: bloom.NewBloomFilter(1000, 0.01, 3)}
		persist := r.Intn(2) == 0
		fired := x.f.run(at, persist, pick(r, readErrs), func() { err = try(at, persist) })
		x.hit("filter", fired)
		c.Eval(1)
		if err != nil {
			x.notAbsent("initializing a filter", err)
			c.Count("errors", 1)
			// done again, on the same filter
			if err := x.lazy.Initialize(bg, h.e.db, []bond.TableScanner[any]{h.t.AnyScanner()}); err != nil {
				c.Fail("after", "initializing a filter after the fault: %v", err)
			}
		}
		for _, row := range h.m.Rows {
			if !h.t.Exist(row, nil) {
				c.Fail("wrong", "the filter initialized with %d failed reads (%v) hides row %d", fired, err, row.ID)
			}
		}
	}
}

// exist is the call that can't report a failure.
func (x *c18) exist() {
	h := x.h
	h.e.flush()
	h.e.compact()
	ps := h.present(3)
	for _, p := range ps {
		if !h.t.Exist(p, nil) {
			x.c.Fail("after", "Exist is false for row %d", p.ID)
		}
		for at := int64(0); at < 20; at++ {
			var got bool
			if fired := x.f.run(at, true, errorfs.ErrInjected, func() { got = h.t.Exist(p, nil) }); fired > 0 && !got {
				x.c.Fail("exist", "Exist is false for row %d when the storage fails to read", p.ID)
			}
		}
	}
}

var _ = context.Background
