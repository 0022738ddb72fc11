package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/cockroachdb/pebble/vfs/errorfs"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/bloom"
	bfilters "github.com/go-bond/bond/filters"
)

func init() {
	register(&Check{ID: "C29", Level: "fault_enumeration", Quick: 700, Thorough: 12000, Run: runC29,
		Rule: "histories of writes, reads, rebuilds, filter saves and loads, dumps and restores, each as it is, refused, with a cancelled context, with a failing serializer, stopped early, or with its k-th storage read failing; after every operation the buffers, batches, iterators, snapshots and closers handed out inside are counted and must be back; in the end Close must report nothing, no goroutine, descriptor or open file may remain and the directory is opened again at once; and openings and migrations refused in every way or with the k-th storage operation failing, compared with pebble alone; non-trivial: at least 20 operations, 5 of them failing, or a failed opening"})
}

var errC29 = errors.New("c29: injected")

// defaultFormat is the default storage format; the options it is taken from hold
// goroutines of their own.
var defaultFormat = bond.DefaultPebbleOptions().FormatMajorVersion

// leakDB counts the batches and iterators made and not closed.
type leakDB struct {
	bond.DB
	mu      sync.Mutex
	batches map[bond.Batch]bool
	iters   map[*leakIter]bool
	made    int
	plan    *failPlan
}

func newLeakDB(db bond.DB) *leakDB {
	p := &failPlan{at: -1}
	return &leakDB{DB: &failDB{db, p}, batches: map[bond.Batch]bool{}, iters: map[*leakIter]bool{}, plan: p}
}

func (d *leakDB) Batch(t bond.BatchType) bond.Batch {
	b := d.DB.Batch(t)
	d.mu.Lock()
	d.batches[b] = true
	d.made++
	d.mu.Unlock()
	b.OnClose(func(bond.Batch) {
		d.mu.Lock()
		delete(d.batches, b)
		d.mu.Unlock()
	})
	return b
}

type leakIter struct {
	bond.Iterator
	d *leakDB
}

func (d *leakDB) Iter(o *bond.IterOptions, b ...bond.Batch) bond.Iterator {
	it := &leakIter{d.DB.Iter(o, b...), d}
	d.mu.Lock()
	d.iters[it] = true
	d.made++
	d.mu.Unlock()
	return it
}

func (it *leakIter) Close() error {
	it.d.mu.Lock()
	delete(it.d.iters, it)
	it.d.mu.Unlock()
	return it.Iterator.Close()
}

func (d *leakDB) Get(key []byte, b ...bond.Batch) ([]byte, io.Closer, error) {
	return d.DB.Get(key, b...)
}

// countFS counts the files open.
type countFS struct {
	vfs.FS
	mu   sync.Mutex
	open map[any]string
	n    int
}

func newCountFS(fs vfs.FS) *countFS { return &countFS{FS: fs, open: map[any]string{}} }

type countFile struct {
	vfs.File
	fs *countFS
}

type countLock struct {
	io.Closer
	fs *countFS
}

func (f *countFile) Close() error {
	f.fs.forget(f)
	return f.File.Close()
}

func (f *countLock) Close() error {
	f.fs.forget(f)
	return f.Closer.Close()
}

func (c *countFS) forget(k any) {
	c.mu.Lock()
	delete(c.open, k)
	c.mu.Unlock()
}

func (c *countFS) file(f vfs.File, err error, name string) (vfs.File, error) {
	if err != nil {
		return f, err
	}
	x := &countFile{f, c}
	c.mu.Lock()
	c.open[x] = filepath.Base(name)
	c.n++
	c.mu.Unlock()
	return x, nil
}

func (c *countFS) Create(n string) (vfs.File, error) {
	f, err := c.FS.Create(n)
	return c.file(f, err, n)
}
func (c *countFS) Open(n string, o ...vfs.OpenOption) (vfs.File, error) {
	f, err := c.FS.Open(n, o...)
	return c.file(f, err, n)
}
func (c *countFS) OpenReadWrite(n string, o ...vfs.OpenOption) (vfs.File, error) {
	f, err := c.FS.OpenReadWrite(n, o...)
	return c.file(f, err, n)
}
func (c *countFS) OpenDir(n string) (vfs.File, error) {
	f, err := c.FS.OpenDir(n)
	return c.file(f, err, n)
}
func (c *countFS) ReuseForWrite(o, n string) (vfs.File, error) {
	f, err := c.FS.ReuseForWrite(o, n)
	return c.file(f, err, n)
}
func (c *countFS) Lock(n string) (io.Closer, error) {
	l, err := c.FS.Lock(n)
	if err != nil {
		return l, err
	}
	x := &countLock{l, c}
	c.mu.Lock()
	c.open[x] = filepath.Base(n)
	c.mu.Unlock()
	return x, nil
}

func (c *countFS) left() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	var out []string
	for _, n := range c.open {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// census is what the process holds.
type census struct {
	gos int
	fds map[string]int
}

func fdList() map[string]int {
	out := map[string]int{}
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return out
	}
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && filepath.IsAbs(t) && !strings.HasPrefix(t, "/proc") {
			out[t]++
		}
	}
	return out
}

func takeCensus() census { return census{runtime.NumGoroutine(), fdList()} }

// more says what the process holds now and did not before.
func (a census) more() string {
	var out []string
	for i := 0; ; i++ {
		out = out[:0]
		if n := runtime.NumGoroutine(); n > a.gos {
			buf := make([]byte, 1<<20)
			st := string(buf[:runtime.Stack(buf, true)])
			at := ""
			for _, g := range strings.Split(st, "\n\n") {
				if strings.Contains(g, "pebble") || strings.Contains(g, "bond.") {
					at = trimStack(g)
				}
			}
			out = append(out, fmt.Sprintf("%d more goroutines, one of them %s", n-a.gos, clipS(at)))
		}
		for f, n := range fdList() {
			if n > a.fds[f] {
				out = append(out, fmt.Sprintf("%d more descriptors of %s", n-a.fds[f], f))
			}
		}
		if len(out) == 0 || i == 30 {
			return strings.Join(out, "; ")
		}
		time.Sleep(time.Duration(i) * time.Millisecond * 10) // they may be ending
	}
}

// leakStore counts the closers of the values handed out.
type leakStore struct {
	bond.FilterStorer
	open int
	fail int // calls until one fails, negative: never
}

type leakCloser struct {
	io.Closer
	s    *leakStore
	done bool
}

func (c *leakCloser) Close() error {
	if !c.done {
		c.done = true
		c.s.open--
	}
	if c.Closer == nil {
		return nil
	}
	return c.Closer.Close()
}

func (s *leakStore) due() bool {
	s.fail--
	return s.fail == -1
}

func (s *leakStore) Get(k []byte, b ...bond.Batch) ([]byte, io.Closer, error) {
	if s.due() {
		return nil, nil, errC29
	}
	v, cl, err := s.FilterStorer.Get(k, b...)
	if err != nil {
		return v, cl, err
	}
	s.open++
	return v, &leakCloser{Closer: cl, s: s}, nil
}

func (s *leakStore) Set(k, v []byte, o bond.WriteOptions, b ...bond.Batch) error {
	if s.due() {
		return errC29
	}
	return s.FilterStorer.Set(k, v, o, b...)
}

func (s *leakStore) DeleteRange(k, v []byte, o bond.WriteOptions, b ...bond.Batch) error {
	if s.due() {
		return errC29
	}
	return s.FilterStorer.DeleteRange(k, v, o, b...)
}

type c29 struct {
	c     *Case
	r     *rand.Rand
	h     *Hist
	def   *TDef
	ld    *leakDB
	cfs   *countFS
	f     *readFaults
	lazy  *bond.FilterInitializable
	real  bool
	dir   string
	n     int
	ops   int
	fails int
}

func runC29(c *Case) {
	switch k := c.R.Intn(20); {
	case k == 0 && c.R.Intn(2) == 0:
		c29Big(c)
	case k < 11:
		c29History(c)
	case k < 13:
		c29Parallel(c)
	default:
		c29Open(c)
	}
}

func c29History(c *Case) {
	r := c.R
	x := &c29{c: c, r: r, dir: c.Dir()}
	before := takeCensus()
	pools.start()
	defer pools.stop()
	x.real = r.Intn(3) == 0
	x.def = randTDef(c, pick(r, []byte{1, 3, 254, 255}), 1+r.Intn(4))
	x.def.Hook = func(string) error { return nil }
	if r.Intn(3) == 0 {
		x.lazy = &bond.FilterInitializable{Filter: newBloom(r)}
		x.def.Filter = x.lazy
	}
	base := vfs.FS(vfs.NewMem())
	if x.real {
		base = vfs.Default
	}
	x.cfs = newCountFS(base)
	x.f = &readFaults{}
	cfg := EnvCfg{Ser: newSerializer(serCBOR), Tiny: true, NoAuto: true, FS: x.f.wrap(x.cfs), Format: defaultFormat}
	if x.real {
		cfg.Dir = filepath.Join(x.dir, "db")
	}
	e := newEnv(c, cfg)
	x.h = &Hist{c: c, e: e, m: newModel(x.def), r: r, p: &Profile{IDs: idPool(r, 15+r.Intn(40)), Small: r.Intn(4) > 0, Zero: 40}}
	c.Logf("%s filter %v real %v", x.def.describe(), x.lazy != nil, x.real)
	x.opened()
	rs := x.h.absent(len(x.h.p.IDs) / 2)
	c.Must(x.h.t.Insert(bg, rs, nil), "insert")
	x.h.m.Put(rs)
	e.flush()
	for i := 0; i < 45; i++ {
		if r.Intn(15) == 0 {
			x.reopen()
		}
		x.op()
		c.Eval(1)
	}
	x.close()
	if s := before.more(); s != "" {
		c.Fail("process", "after Close the process has %s", s)
	}
	if x.ops >= 20 && x.fails >= 5 {
		c.Nontrivial()
	}
}

// opened starts counting for the database just opened.
func (x *c29) opened() {
	e := x.h.e
	x.ld = newLeakDB(e.db)
	e.db = x.ld
	if x.lazy != nil {
		x.lazy = &bond.FilterInitializable{Filter: newBloom(x.r)}
		x.def.Filter = x.lazy
	}
	x.h.t = newTab(e.db, x.def)
	if x.lazy != nil {
		x.initFilter(false)
	}
}

func (x *c29) close() {
	c, e := x.c, x.h.e
	x.idle("the history")
	db := e.db
	e.db = nil
	if err := db.Close(); err != nil {
		c.Fail("close", "Close failed: %v", err)
	}
	if l := x.cfs.left(); len(l) > 0 {
		c.Fail("files", "after Close %d files are open: %v", len(l), l)
	}
	c.Count("closes", 1)
}

func (x *c29) reopen() {
	x.close()
	if err := x.h.e.open(); err != nil {
		x.c.Fail("reopen", "the directory can't be opened again at once: %v", err)
	}
	x.opened()
	x.idle("opening")
}

// idle checks that nothing is in use.
func (x *c29) idle(what string) {
	c := x.c
	if n := pools.outstanding(); n != 0 {
		c.Fail("buffers", "after %s %d recycled buffers are not returned", what, n)
	}
	if x.ld == nil {
		return
	}
	x.ld.mu.Lock()
	nb, ni, made := len(x.ld.batches), len(x.ld.iters), x.ld.made
	x.ld.made = 0
	x.ld.mu.Unlock()
	if nb > 0 {
		c.Fail("batches", "after %s %d batches made inside are not closed", what, nb)
	}
	if ni > 0 {
		c.Fail("iterators", "after %s %d iterators made inside are not closed", what, ni)
	}
	m := x.ld.DB.Backend().Metrics()
	if m.Snapshots.Count != 0 {
		c.Fail("snapshots", "after %s %d snapshots are open", what, m.Snapshots.Count)
	}
	if m.TableIters != 0 {
		c.Fail("iterators", "after %s %d table iterators are open", what, m.TableIters)
	}
	c.Count("closed-inside", made)
	c.Count("censuses", 1)
}

// op performs one operation in one of the ways.
func (x *c29) op() {
	c, r, h := x.c, x.r, x.h
	var b bond.Batch
	q := h
	if r.Intn(3) == 0 {
		q, b = h.pending(r.Intn(3))
		// it is the caller's
		x.ld.mu.Lock()
		delete(x.ld.batches, b)
		x.ld.mu.Unlock()
	}
	what, run, model := x.draw(q, b)
	done := false // the write took place
	once := func(how string, ctx context.Context) (err error) {
		if done {
			return nil
		}
		defer func() {
			switch v := recover().(type) {
			case nil:
			case failure, harnessErr, caseStop:
				panic(v)
			default:
				err = fmt.Errorf("panic: %v", v)
				c.Fail("panic", "%s (%s): %v", what, how, err)
			}
		}()
		err = run(ctx)
		x.ops++
		if err != nil {
			x.fails++
			c.Count("failed", 1)
		} else if b == nil && model != nil {
			model(h.m)
			done = true
		}
		c.Count("way-"+strings.Fields(how)[0], 1)
		c.Logf("%s, %s: %v", what, how, err)
		return err
	}
	check := func(how string) {
		x.idle(what + ", " + how)
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		switch r.Intn(6) {
		case 5: // a refused storage write
			k := r.Intn(1 + r.Intn(30))
			x.ld.plan.start(k, r.Intn(2) == 0, errC29)
			_ = once("write", bg)
			_, fired := x.ld.plan.count()
			x.ld.plan.start(-1, false, nil)
			c.Count("refused-storage-writes", fired)
			check(fmt.Sprintf("with the storage write %d refused", k))
		case 0:
			k := 1 + r.Intn(15)
			_ = once("cancelled", newTickCtx(k, pick(r, ctxErrs)))
			check(fmt.Sprintf("cancelled at the look-up %d", k))
		case 1:
			k, i := r.Intn(10), 0
			x.def.Hook = func(site string) error {
				if site == "ser" || site == "deser" {
					if i++; i > k {
						return errC29
					}
				}
				return nil
			}
			_ = once("serializer", bg)
			x.def.Hook = func(string) error { return nil }
			check(fmt.Sprintf("with a serializer failing from its call %d on", k))
		case 2, 3:
			var total int64
			x.f.run(-1, false, nil, func() {
				if model == nil {
					_ = once("counted", bg)
				}
				total = x.f.n.Load()
			})
			check("counted")
			k := r.Int63n(total + 10)
			if total > 0 && r.Intn(4) > 0 {
				k = r.Int63n(total)
			}
			fired := x.f.run(k, r.Intn(2) == 0, pick(r, readErrs), func() {
				_ = once("storage", bg)
			})
			c.Count("faults", int(fired))
			check(fmt.Sprintf("with the storage read %d of %d failing", k, total))
		}
	}
	_ = once("plain", bg)
	check("as it is")
	c.Distinct(fmt.Sprint(what[:minI(len(what), 12)], x.def.PK, b != nil))
	if b != nil {
		if r.Intn(2) == 0 {
			_ = b.Commit(bond.Sync)
			// what the batch holds isn't known after failed writes in it
			x.reread()
		}
		_ = b.Close()
		x.idle("closing a batch")
	}
	if r.Intn(6) == 0 {
		h.e.flush()
		x.idle("a flush")
	}
}

// reread takes the content of the database for the model.
func (x *c29) reread() {
	rs, err := x.h.t.Scan(bg, false, nil)
	if err != nil {
		x.c.Fail("scan", "Scan failed: %v", err)
	}
	x.h.m.Rows = map[uint64]Row{}
	x.h.m.Put(rs)
	x.idle("a scan")
}

// draw draws an operation; q is what the batch shows.
func (x *c29) draw(q *Hist, b bond.Batch) (what string, run func(ctx context.Context) error, model func(*Model)) {
	r, h := x.r, x.h
	switch k := r.Intn(24); {
	case k < 7:
		op := q.genRead(nil)
		return op.name, func(ctx context.Context) error { _, err := op.run(ctx, b); return err }, nil
	case k < 12:
		n := 1 + r.Intn(6)
		if r.Intn(80) == 0 {
			n = 5000 + r.Intn(300)
		}
		w := genCall(q, n, r.Intn(3) == 0)
		t := h.t
		return w.name + " " + ids(w.rows), func(ctx context.Context) error {
			if w.bad && b != nil && b.Type() == bond.BatchTypeWriteOnly {
				return nil
			}
			return w.run(ctx, t, b)
		}, w.model
	case k < 15: // stopped early or failing
		idx := q.genIdx()
		s := selOrNone(q.genSel(idx))
		rev, at, fail, take, anyT := r.Intn(2) == 0, r.Intn(6), r.Intn(2) == 0, r.Intn(3), r.Intn(3) == 0
		return fmt.Sprintf("for-each of %s stopped at %d, failing %v", s, at, fail), func(ctx context.Context) error {
			n := 0
			f := func(k []byte, get func() (Row, error)) (bool, error) {
				if take == 0 || take == 1 && n%2 == 0 {
					if _, err := get(); err != nil {
						return true, err
					}
				}
				if n++; n > at {
					if fail {
						return true, errC29
					}
					return false, nil
				}
				return true, nil
			}
			if anyT {
				return h.t.AnyForEach(ctx, idx, s, rev, b, f)
			}
			return h.t.ForEach(ctx, idx, s, rev, b, f)
		}, nil
	case k == 15: // a query whose clauses must be refused
		s := q.genIntersect()
		in := *pick(r, s.Inter)
		row := q.selRow()
		switch r.Intn(4) {
		case 0:
			f := pick(r, filters)
			in.Filter, in.FName = f.f, f.name
		case 1:
			in.After = &row
		case 2:
			in.Limit = 1
		case 3:
			in.Reverse = true
		}
		s.Inter[r.Intn(len(s.Inter))] = &in
		return "refused " + s.String(), func(ctx context.Context) error { _, err := h.t.Query(ctx, s, b); return err }, nil
	case k == 16: // an iterator of the caller's
		idx := q.genIdx()
		sel := q.genSel(idx)
		for sel == nil {
			sel = q.genSel(idx)
		}
		s := *sel
		n, back := r.Intn(5), r.Intn(2) == 0
		return "iterator over " + s.String(), func(context.Context) error {
			it := h.t.Iter(idx, s, b)
			ok := it.First()
			for i := 0; i < n && ok; i++ {
				if back && i == 1 {
					ok = it.Last()
				} else if back && i > 1 {
					ok = it.Prev()
				} else {
					ok = it.Next()
				}
			}
			err := it.Error()
			if errC := it.Close(); err == nil {
				err = errC
			}
			return err
		}, nil
	case k == 17:
		var is []byte
		for _, i := range x.def.Idx {
			if r.Intn(2) == 0 {
				is = append(is, i.ID)
			}
		}
		return fmt.Sprintf("ReIndex %v", is), func(context.Context) error { return h.t.ReIndex(is) }, nil
	case k == 18 && x.lazy != nil:
		return "filter", func(context.Context) error { return x.filterOp() }, nil
	case (k == 19 || k == 18) && x.real:
		x.n++
		n := x.n
		wi := r.Intn(2) == 0
		i := 0
		return "dump and restore", func(ctx context.Context) error {
			i++
			return x.dump(ctx, fmt.Sprintf("%d-%d", n, i), wi)
		}, nil
	case k == 20: // Exist
		row := q.selRow()
		return "Exist", func(context.Context) error { h.t.Exist(row, b); return nil }, nil
	case k == 21: // keys and values of the user's
		key := bond.NewUserKey(fmt.Sprint("u", r.Intn(5)))
		return "user key", func(context.Context) error {
			var src interface {
				bond.Getter
				bond.Setter
				bond.Deleter
				bond.Iterationer
			} = x.ld
			if b != nil {
				src = b
			}
			if err := src.Set(key, []byte("v"), bond.Sync); err != nil {
				return err
			}
			_, cl, err := src.Get(key)
			if err != nil {
				return err
			}
			_ = cl.Close()
			it := src.Iter(&bond.IterOptions{})
			it.First()
			return it.Close()
		}, nil
	default:
		qs := q.genQuery()
		return qs.String(), func(ctx context.Context) error { _, err := h.t.Query(ctx, qs, b); return err }, nil
	}
}

func (x *c29) scanners() []bond.TableScanner[any] {
	return []bond.TableScanner[any]{x.h.t.AnyScanner()}
}

func (x *c29) stores(fail bool) *leakStore {
	s := &leakStore{fail: -1}
	if fail {
		s.fail = x.r.Intn(12)
	}
	if x.r.Intn(2) == 0 {
		s.FilterStorer = x.ld
	} else {
		s.FilterStorer = bfilters.NewFSFilterStorer(filepath.Join(x.dir, "filters"))
	}
	return s
}

func (x *c29) initFilter(fail bool) {
	for i := 0; ; i++ {
		s := x.stores(fail && i == 0)
		err := x.lazy.Initialize(bg, s, x.scanners())
		if s.open != 0 {
			x.c.Fail("closers", "loading a filter leaves %d values unclosed (%v)", s.open, err)
		}
		if err == nil {
			return
		}
		if !fail || i > 0 {
			x.c.Fail("filter", "Initialize failed: %v", err)
		}
	}
}

// filterOp saves, loads or clears the filter.
func (x *c29) filterOp() error {
	s := x.stores(x.r.Intn(2) == 0)
	var err error
	what := ""
	switch x.r.Intn(4) {
	case 0:
		what, err = "saving a filter", x.lazy.Save(bg, s)
	case 1:
		other := newBloom(x.r)
		_ = x.lazy.Save(bg, &leakStore{FilterStorer: s.FilterStorer, fail: -1})
		what, err = "loading a filter", other.Load(bg, s)
	case 2:
		other := &bond.FilterInitializable{Filter: newBloom(x.r)}
		what, err = "initializing a filter", other.Initialize(bg, s, x.scanners())
	default: // what is stored is damaged
		f := bloom.NewBloomFilter(50, 0.1, 3)
		f.Add(bg, []byte("some key of enough length"))
		_ = f.Save(bg, &leakStore{FilterStorer: s.FilterStorer, fail: -1})
		_ = s.FilterStorer.Set([]byte{byte(x.def.ID), 0}, []byte("rubbish"), bond.Sync)
		what, err = "loading another filter", newBloom(x.r).Load(bg, s)
	}
	x.c.Count("filter-ops", 1)
	if s.open != 0 {
		x.c.Fail("closers", "%s leaves %d values unclosed (%v)", what, s.open, err)
	}
	return err
}

// dump dumps the table, sometimes where it can't, and restores it into another
// database.
func (x *c29) dump(ctx context.Context, name string, wi bool) error {
	p := filepath.Join(x.dir, "dump"+name)
	if x.r.Intn(6) == 0 {
		p = filepath.Join(x.dir, "none", "dump")
	}
	err := x.ld.DB.(interface {
		Dump(context.Context, string, []bond.TableID, bool) error
	}).Dump(ctx, p, []bond.TableID{bond.TableID(x.def.ID)}, wi)
	for f := range fdList() {
		if strings.HasPrefix(f, p) {
			x.c.Fail("dump", "after a dump (%v) %s is open", err, f)
		}
	}
	defer os.RemoveAll(p)
	if err != nil {
		x.c.Count("failed-dumps", 1)
		return err
	}
	x.idle("a dump")
	to := filepath.Join(x.dir, "to"+name)
	defer os.RemoveAll(to)
	fds := fdList()
	cfs := newCountFS(vfs.Default)
	cfg := EnvCfg{FS: cfs, Format: defaultFormat}
	o := cfg.pebbleOptions(cfs)
	db, err := bond.Open(to, &bond.Options{PebbleOptions: o})
	if err != nil {
		return err
	}
	if x.r.Intn(4) == 0 {
		p += "-none"
	}
	err = db.(interface {
		Restore(context.Context, string, []bond.TableID, bool) error
	}).Restore(ctx, p, []bond.TableID{bond.TableID(x.def.ID)}, wi)
	if errC := db.Close(); errC != nil {
		x.c.Fail("close", "Close after Restore (%v) failed: %v", err, errC)
	}
	if l := cfs.left(); len(l) > 0 {
		x.c.Fail("files", "after Restore (%v) and Close %d files are open: %v", err, len(l), l)
	}
	if s := (census{1 << 30, fds}).more(); s != "" {
		x.c.Fail("process", "after a dump and a Restore (%v) the process has %s", err, s)
	}
	x.c.Count("dumps", 1)
	return err
}

// c29Big rebuilds and dumps more than fits into one batch and one file.
func c29Big(c *Case) {
	r := c.R
	x := &c29{c: c, r: r, dir: c.Dir(), real: true, f: &readFaults{}}
	before := takeCensus()
	pools.start()
	defer pools.stop()
	x.def = randTDef(c, pick(r, []byte{1, 254}), 1+r.Intn(2))
	calls, limit := 0, 1<<60
	x.def.Hook = func(site string) error {
		if calls++; site == "deser" && calls > limit {
			return errC29
		}
		return nil
	}
	x.cfs = newCountFS(vfs.Default)
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR), FS: x.f.wrap(x.cfs), NoAuto: true, Dir: filepath.Join(x.dir, "db"), Format: defaultFormat})
	x.h = &Hist{c: c, e: e, m: newModel(x.def), r: r, p: &Profile{IDs: idPool(r, 15), Small: true, Zero: 40}}
	x.opened()
	var rs []Row
	n, size := pick(r, []int{9999, 10000, 20000, 23000}), 0
	if r.Intn(2) == 0 {
		n, size = 250+r.Intn(200), 90000
	}
	text := make([]byte, size)
	for i := 0; i < n; i++ {
		row := Row{ID: uint64(i) * 7, A: uint32(r.Intn(5)), B: int64(r.Intn(50) - 25), C: uint16(i), U: byte(i), H: int16(i), N: int32(i)}
		if size > 0 && len(x.def.Idx) > 0 && i > 20 && x.def.Idx[0].VarKey {
			break // its entries would be as large
		}
		r.Read(text)
		for i := range text {
			text[i] = 32 + text[i]%95
		}
		row.Str = string(text)
		rs = append(rs, row)
	}
	c.Must(x.h.t.Insert(bg, rs, nil), "insert")
	e.flush()
	c.Logf("%s, %d rows of %d bytes", x.def.describe(), len(rs), size)
	x.idle("a large insert")
	for i := 0; i < 3; i++ {
		calls, limit = 0, 1<<60
		if r.Intn(2) == 0 {
			limit = r.Intn(len(rs))
		}
		var is []byte
		for _, i := range x.def.Idx {
			is = append(is, i.ID)
		}
		err := x.h.t.ReIndex(is)
		c.Logf("ReIndex of %d rows: %v", len(rs), err)
		x.idle(fmt.Sprintf("ReIndex of %d rows (%v)", len(rs), err))
		limit = 1 << 60
		var total int64
		x.f.run(-1, false, nil, func() { err = x.dump(bg, fmt.Sprint(i), true) })
		total = x.f.n.Load()
		c.Logf("dump: %v", err)
		x.idle(fmt.Sprintf("a dump (%v)", err))
		if total > 0 {
			k := r.Int63n(total)
			x.f.run(k, true, pick(r, readErrs), func() { err = x.dump(bg, fmt.Sprint(i, "f"), true) })
			c.Logf("dump with the storage read %d of %d failing: %v", k, total, err)
			x.idle(fmt.Sprintf("a dump (%v)", err))
			if err != nil {
				x.fails++
			}
		}
		x.ops += 2
		c.Eval(2)
	}
	x.close()
	if s := before.more(); s != "" {
		c.Fail("process", "after Close the process has %s", s)
	}
	c.Count("big", 1)
	c.Nontrivial()
}

// c29Parallel lets several goroutines fail at once.
func c29Parallel(c *Case) {
	r := c.R
	before := takeCensus()
	pools.start()
	defer pools.stop()
	cfs := newCountFS(vfs.NewMem())
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR), FS: cfs, MemTable: 64 << 10})
	x := &c29{c: c, r: r, ld: newLeakDB(e.db), cfs: cfs}
	e.db = x.ld
	n := 2 + r.Intn(5)
	c.Logf("%d goroutines", n)
	var xs []*c29
	for g := 0; g < n; g++ {
		def := randTDef(c, byte(1+g), 1+r.Intn(3))
		def.pkFieldsOf()
		def.Hook = func(string) error { return nil }
		y := &c29{c: c, def: def, ld: x.ld}
		y.h = &Hist{c: c, e: e, t: newTab(e.db, def), m: newModel(def), p: &Profile{IDs: idPool(r, 15), Small: true, Zero: 40}}
		xs = append(xs, y)
	}
	c.Par(n, func(g int, r *rand.Rand) {
		y := xs[g]
		y.r, y.h.r = r, r
		for i := 0; i < 25; i++ {
			q := y.h
			var b bond.Batch
			if r.Intn(3) == 0 {
				q, b = y.h.pending(r.Intn(3))
			}
			what, run, model := y.draw(q, b)
			ctx := bg
			switch r.Intn(3) {
			case 0:
				ctx = newTickCtx(1+r.Intn(15), context.Canceled)
			case 1:
				k, i := r.Intn(10), 0
				y.def.Hook = func(site string) error {
					if i++; i > k && (site == "ser" || site == "deser") {
						return errC29
					}
					return nil
				}
			}
			err := run(ctx)
			y.def.Hook = func(string) error { return nil }
			c.Logf("%d: %s: %v", g, what, err)
			if err == nil && b == nil && model != nil {
				model(y.h.m)
			}
			if b != nil {
				_ = b.Close()
			}
			y.ops++
			if err != nil {
				y.fails++
			}
			c.Eval(1)
		}
	})
	for _, y := range xs {
		x.ops += y.ops
		x.fails += y.fails
		y.h.r = r
	}
	if n := pools.outstanding(); n != 0 {
		c.Fail("buffers", "after the goroutines %d recycled buffers are not returned", n)
	}
	for _, m := range []map[bond.Batch]bool{x.ld.batches} {
		if len(m) > 0 {
			c.Fail("batches", "after the goroutines %d batches made inside are not closed", len(m))
		}
	}
	if len(x.ld.iters) > 0 {
		c.Fail("iterators", "after the goroutines %d iterators made inside are not closed", len(x.ld.iters))
	}
	db := e.db
	e.db = nil
	if err := db.Close(); err != nil {
		c.Fail("close", "Close failed: %v", err)
	}
	if l := cfs.left(); len(l) > 0 {
		c.Fail("files", "after Close %d files are open: %v", len(l), l)
	}
	if s := before.more(); s != "" {
		c.Fail("process", "after Close the process has %s", s)
	}
	c.Count("parallel", 1)
	if x.ops >= 20 && x.fails >= 5 {
		c.Nontrivial()
	}
}

func dataVersionKey() []byte {
	return bond.KeyEncode(bond.Key{TableID: bond.BOND_DB_DATA_TABLE_ID, PrimaryKey: []byte("__bond_db_data_version__")})
}

// c29Open opens and migrates databases in ways that fail.
func c29Open(c *Case) {
	r := c.R
	dir := filepath.Join(c.Dir(), "db")
	format := defaultFormat
	formatFile := filepath.Join(dir, "bond", bond.PebbleFormatFile)
	options := func(fs vfs.FS) *bond.Options {
		cfg := EnvCfg{Format: format}
		return &bond.Options{PebbleOptions: cfg.pebbleOptions(fs), Serializer: newSerializer(serCBOR)}
	}
	// fill makes the database and leaves data in tables and in the log.
	fill := func(o *bond.Options) {
		db, err := bond.Open(dir, o)
		if err != nil {
			c.Fail("open", "opening failed: %v", err)
		}
		for i := 0; i < 20; i++ {
			c.Must(db.Set(bond.NewUserKey(fmt.Sprint("k", i)), []byte("value"), bond.Sync), "set")
			if i == 10 && r.Intn(2) == 0 {
				c.Must(db.Backend().Flush(), "flush")
			}
		}
		c.Must(db.Close(), "close")
	}
	failed := 0
	var before census
	// released checks that nothing is held after what.
	released := func(what string) {
		if s := before.more(); s != "" {
			c.Fail("process", "after %s the process has %s", what, s)
		}
		c.Eval(1)
	}
	works := func(what string, o *bond.Options) {
		db, err := bond.Open(dir, o)
		if err != nil {
			c.Fail("reopen", "after %s the directory can't be opened: %v", what, err)
		}
		if err := db.Close(); err != nil {
			c.Fail("close", "after %s Close failed: %v", what, err)
		}
		released(what + ", opening and closing")
	}
	switch k := r.Intn(4); k {
	case 0: // storage operations failing
		mem := vfs.NewMem()
		before = takeCensus()
		if r.Intn(3) > 0 {
			fill(options(mem))
		}
		for i := 0; i < 12; i++ {
			cfs := newCountFS(mem)
			var n, at, fired int64 = 0, int64(r.Intn(60)), 0
			own := r.Intn(2) == 0
			if own {
				at = int64(1 + r.Intn(4))
			}
			inside := false // the fault hit pebble's own work
			if i == 0 {
				at = -1
			}
			persist := r.Intn(2) == 0
			var mu sync.Mutex
			fs := errorfs.Wrap(cfs, errorfs.InjectorFunc(func(op errorfs.Op) error {
				if op.Kind == errorfs.OpFileStat {
					return nil // pebble's newFileReadable leaves the file open then
				}
				mu.Lock()
				defer mu.Unlock()
				st := ""
				if own {
					// only the operations of bond's
					st = string(debug.Stack())
					if strings.Contains(st, "cockroachdb/pebble.Open(") || !strings.Contains(st, "bond.Open(") {
						return nil
					}
				}
				n++
				if at >= 0 && (n == at || persist && n > at) {
					if !inside {
						st = string(debug.Stack())
						inside = strings.Contains(st, "cockroachdb/pebble.Open(") || !strings.Contains(st, "bond.Open(")
					}
					fired++
					return errC29
				}
				return nil
			}))
			var db bond.DB
			var err error
			pan := any(nil)
			func() {
				defer func() { pan = recover() }()
				db, err = bond.Open(dir, options(fs))
			}()
			c.Logf("storage operation %d failing (%v): %v %v", at, persist, err, pan)
			if pan != nil { // pebble gives up on some failures
				c.Count("panics", 1)
				before = takeCensus()
				break
			}
			if err == nil {
				mu.Lock()
				at, persist = -1, false
				mu.Unlock()
				if err := db.Close(); err != nil {
					c.Count("close-errors", 1)
				}
			} else {
				failed++
				c.Count("failed-opens", 1)
			}
			what := fmt.Sprintf("opening with a failing storage operation (%v)", err)
			if inside || persist && fired > 1 {
				// pebble's own opening, or closing, releases nothing then
				c.Count("pebble-failed", 1)
				before = takeCensus()
				works(what, options(mem))
				continue
			}
			if fired > 0 {
				c.Count("open-faults", 1)
			}
			if l := cfs.left(); len(l) > 0 {
				c.Fail("files", "after %s %d files are open: %v", what, len(l), l)
			}
			works(what, options(mem))
		}
	case 1, 2: // refused
		before = takeCensus()
		std := r.Intn(2) == 0 // the default options on the real file system
		o := func() *bond.Options {
			if std {
				return nil
			}
			return options(vfs.Default)
		}
		fill(o())
		released("closing")
		for i := 0; i < 6; i++ {
			what, undo := "", func() {}
			oo := o()
			switch r.Intn(8) {
			case 0, 1:
				text := pick(r, []string{"", "x", "16", "1", "13 ", "99999999999999999999"})
				what = fmt.Sprintf("a format file holding %q", text)
				was, err := os.ReadFile(formatFile)
				c.Must(err, "format file")
				c.Must(os.WriteFile(formatFile, []byte(text), 0644), "format file")
				undo = func() { c.Must(os.WriteFile(formatFile, was, 0644), "format file") }
			case 2:
				what = "a directory in place of the format file"
				was, err := os.ReadFile(formatFile)
				c.Must(err, "format file")
				c.Must(os.Remove(formatFile), "remove")
				c.Must(os.Mkdir(formatFile, 0755), "mkdir")
				undo = func() {
					c.Must(os.Remove(formatFile), "remove")
					c.Must(os.WriteFile(formatFile, was, 0644), "format file")
				}
			case 3:
				what = "a newer data version"
				setVersion := func(v []byte) {
					db, err := bond.Open(dir, o())
					c.Must(err, "open")
					c.Must(db.Backend().Set(dataVersionKey(), v, pebble.Sync), "set")
					c.Must(db.Close(), "close")
				}
				setVersion([]byte(pick(r, []string{"99", "x", ""})))
				undo = func() {
					po := options(vfs.Default).PebbleOptions
					po.Comparer = bond.DefaultKeyComparer()
					db, err := pebble.Open(dir, po)
					c.Must(err, "open")
					c.Must(db.Set(dataVersionKey(), []byte(fmt.Sprint(bond.BOND_DB_DATA_VERSION)), pebble.Sync), "set")
					c.Must(db.Close(), "close")
				}
			case 4:
				what = "another open database"
				db, err := bond.Open(dir, o())
				c.Must(err, "open")
				_, errOpen := bond.Open(dir, o())
				errMig := bond.MigratePebbleFormatVersion(dir, uint64(format))
				if errOpen == nil || errMig == nil {
					c.Fail("lock", "an open database was opened (%v) or migrated (%v) again", errOpen, errMig)
				}
				if err := db.Close(); err != nil {
					c.Fail("close", "Close failed after a refused opening: %v", err)
				}
				failed += 2
				released(what)
				works(what, o())
				continue
			case 5:
				if std {
					continue
				}
				what = "options that refuse"
				oo.PebbleOptions.ErrorIfExists = true
			case 7:
				// the migration itself is fine, what it leaves to do is not
				what = "a migration that cannot record the format"
				was, err := os.ReadFile(formatFile)
				c.Must(err, "format file")
				if r.Intn(2) == 0 {
					aside := filepath.Join(dir, "bond-aside")
					c.Must(os.Rename(filepath.Join(dir, "bond"), aside), "rename")
					err = bond.MigratePebbleFormatVersion(dir, uint64(format))
					c.Must(os.RemoveAll(filepath.Join(dir, "bond")), "remove")
					c.Must(os.Rename(aside, filepath.Join(dir, "bond")), "rename back")
				} else {
					c.Must(os.Remove(formatFile), "remove")
					c.Must(os.MkdirAll(filepath.Join(formatFile, "x"), 0755), "mkdir")
					err = bond.MigratePebbleFormatVersion(dir, uint64(format))
					c.Must(os.RemoveAll(formatFile), "remove")
				}
				c.Must(os.WriteFile(formatFile, was, 0644), "format file")
				c.Logf("%s: %v", what, err)
				if err != nil {
					failed++
					c.Count("failed-migrations", 1)
				}
				released(fmt.Sprintf("%s (%v)", what, err))
				works(what, o())
				continue
			case 6:
				what = "a migration"
				v := pick(r, []uint64{0, 1, uint64(format), 200, 1 << 40})
				var err error
				func() {
					defer func() {
						if p := recover(); p != nil {
							err = fmt.Errorf("panic: %v", p)
						}
					}()
					err = bond.MigratePebbleFormatVersion(pick(r, []string{dir, dir, filepath.Join(dir, "bond", bond.PebbleFormatFile)}), v)
				}()
				c.Logf("migration to %d: %v", v, err)
				if err != nil && strings.HasPrefix(err.Error(), "panic") {
					c.Count("panics", 1)
					before = takeCensus()
				}
				if err != nil {
					failed++
				}
				c.Must(os.WriteFile(formatFile, []byte(fmt.Sprint(uint64(format))), 0644), "format file")
				released(fmt.Sprintf("a migration to %d (%v)", v, err))
				works(what, o())
				continue
			}
			db, err := bond.Open(dir, oo)
			c.Logf("%s: %v", what, err)
			if err == nil {
				c.Must(db.Close(), "close")
				c.Count("not-refused", 1)
			} else {
				failed++
				c.Count("failed-opens", 1)
			}
			released(fmt.Sprintf("opening with %s (%v)", what, err))
			undo()
			works(what, o())
		}
	default: // the path
		before = takeCensus()
		bad := filepath.Join(filepath.Dir(dir), "file")
		c.Must(os.WriteFile(bad, []byte("x"), 0644), "file")
		for _, p := range []string{bad, filepath.Join(bad, "sub")} {
			for _, o := range []*bond.Options{nil, options(vfs.Default)} {
				if _, err := bond.Open(p, o); err == nil {
					c.Fail("path", "a file was opened as a database")
				}
				failed++
				released("opening a file")
			}
			if err := bond.MigratePebbleFormatVersion(p, uint64(format)); err == nil {
				c.Fail("path", "a file was migrated")
			}
			released("migrating a file")
		}
		// the directory of bond's own can't be made or written
		c.Must(os.Mkdir(dir, 0755), "mkdir")
		c.Must(os.WriteFile(filepath.Join(dir, "bond"), []byte("x"), 0644), "file")
		for _, o := range []*bond.Options{nil, options(vfs.Default)} {
			if _, err := bond.Open(dir, o); err == nil {
				c.Fail("path", "opened with a file in place of bond's directory")
			}
			released("opening with a file in place of bond's directory")
			failed++
		}
		c.Must(os.Remove(filepath.Join(dir, "bond")), "remove")
		works("a refused opening", nil)
	}
	c.Distinct(fmt.Sprint(failed))
	if failed > 0 {
		c.Nontrivial()
	}
}
