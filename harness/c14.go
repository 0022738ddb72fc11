package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync/atomic"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/bloom"
	bondfilters "github.com/go-bond/bond/filters"
)

func init() {
	register(&Check{ID: "C14", Level: "fault_enumeration", Quick: 1600, Thorough: 40000, Run: runC14,
		Rule: "sequences of process lives over one store (database, files or memory): filters of the same or another configuration initialized from whatever is there (nothing, complete, partial, damaged, failing store, cancelled scan), rows added, saves with the store failing at any operation, clears among foreign entries; after every initialization and load all rows looked up in the filter; non-trivial: at least one life initialized from a store with entries of an earlier one",
	})
}

// c14Store is a filter store that can be listed, damaged and made to fail.
type c14Store struct {
	in   bond.FilterStorer
	list func() map[string][]byte
	put  func(k string, v []byte) // nil value: remove
	at   int                      // operation that fails, -1: none
	n    int
	only string
	hits int
}

var errStore = errors.New("store failure")

func (s *c14Store) op(n string) error {
	if s.only != "" && s.only != n {
		return nil
	}
	s.n++
	if s.at >= 0 && s.n > s.at {
		s.hits++
		return errStore
	}
	return nil
}
func (s *c14Store) Get(k []byte, b ...bond.Batch) ([]byte, io.Closer, error) {
	if err := s.op("get"); err != nil {
		return nil, nil, err
	}
	return s.in.Get(k, b...)
}
func (s *c14Store) Set(k, v []byte, o bond.WriteOptions, b ...bond.Batch) error {
	if err := s.op("set"); err != nil {
		return err
	}
	return s.in.Set(k, v, o, b...)
}
func (s *c14Store) DeleteRange(x, y []byte, o bond.WriteOptions, b ...bond.Batch) error {
	if err := s.op("delete"); err != nil {
		return err
	}
	return s.in.DeleteRange(x, y, o, b...)
}
func (s *c14Store) fault(at int, only string) { s.at, s.n, s.only, s.hits = at, 0, only, 0 }

// life of one filter
type c14Filter struct {
	prefix []byte
	tabs   []int
	n      uint
	fp     float64
	bk     int
	f      *bloom.BloomFilter
	lazy   *bond.FilterInitializable

	init    bool
	saved   bool            // the store holds a complete save of this lineage
	covered map[string]bool // row keys present at that save
}

type c14 struct {
	c    *Case
	r    *rand.Rand
	e    *Env
	defs []*TDef
	ms   []*Model
	ts   []Tab
	fs   []*c14Filter
	st   *c14Store
	kind string
	p    *Profile
	// entries of other users of a file store
	others map[string]bool
	fgn    map[string][]byte // entries of others as they were put
}

func runC14(c *Case) {
	r := c.R
	if r.Intn(8) == 0 {
		c14Concurrent(c)
		return
	}
	x := &c14{c: c, r: r, others: map[string]bool{}, p: &Profile{IDs: idPool(r, 30), Small: true, Zero: 70}}
	x.e = newEnv(c, EnvCfg{Ser: newSerializer(serCBOR)})
	x.kind = pick(r, []string{"db", "fs", "mem", "db"})
	x.mkStore()
	nt := 1 + r.Intn(3)
	for i := 0; i < nt; i++ {
		d := &TDef{ID: []byte{1, 2, 255}[i], PK: PKKind(r.Intn(int(pkKinds))), Ser: SerKind(r.Intn(int(serKinds)))}
		x.defs = append(x.defs, d)
		x.ms = append(x.ms, newModel(d))
	}
	// one filter for all, or one each
	if nt == 1 || r.Intn(2) == 0 {
		f := &c14Filter{}
		for i := 0; i < nt; i++ {
			f.tabs = append(f.tabs, i)
		}
		if r.Intn(2) == 0 {
			f.prefix = x.prefix(0)
		}
		x.fs = append(x.fs, f)
	} else {
		for i := 0; i < nt; i++ {
			x.fs = append(x.fs, &c14Filter{prefix: x.prefix(i), tabs: []int{i}})
		}
	}
	all := x.st.list()
	x.foreign()
	x.fgn = x.st.list()
	for k := range all {
		delete(x.fgn, k)
	}
	for l := 2 + r.Intn(4); l > 0; l-- {
		x.life()
		x.end()
	}
}

func (x *c14) prefix(i int) []byte {
	n := []string{"alpha_", "beta.", "g/\x00\xff"}[i]
	if x.kind == "db" {
		return bond.NewUserKey(n)
	}
	if i == 2 && x.r.Intn(2) == 0 {
		return []byte{'k', 0xff, 0xff}
	}
	return []byte(n)
}

func (x *c14) mkStore() {
	switch x.kind {
	case "db":
		x.dbStore()
	case "fs":
		dir := x.c.Dir()
		s := bondfilters.NewFSFilterStorer(dir)
		x.st = &c14Store{in: s, at: -1, list: func() map[string][]byte {
			out := map[string][]byte{}
			err := filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
				if err == nil && !i.IsDir() {
					b, _ := os.ReadFile(p)
					out[p[len(dir)+1:]] = b
				}
				return nil
			})
			x.c.Must(err, "walk")
			return out
		}, put: func(k string, v []byte) {
			if v == nil {
				x.c.Must(os.Remove(filepath.Join(dir, k)), "remove")
				return
			}
			x.c.Must(os.MkdirAll(filepath.Dir(filepath.Join(dir, k)), 0o777), "mkdir")
			x.c.Must(os.WriteFile(filepath.Join(dir, k), v, 0o666), "write")
		}}
	default:
		s := newMapStore()
		x.st = &c14Store{in: s, at: -1, list: func() map[string][]byte {
			out := map[string][]byte{}
			for k, v := range s.m {
				out[k] = v
			}
			return out
		}, put: func(k string, v []byte) {
			if v == nil {
				delete(s.m, k)
			} else {
				s.m[k] = v
			}
		}}
	}
}

func (x *c14) dbStore() {
	db := x.e.db
	x.st = &c14Store{in: db, at: -1, list: func() map[string][]byte {
		out := map[string][]byte{}
		for _, kv := range x.e.dumpAll() {
			out[string(kv.k)] = kv.v
		}
		return out
	}, put: func(k string, v []byte) {
		if v == nil {
			x.c.Must(db.Backend().Delete([]byte(k), pebble.Sync), "delete")
		} else {
			x.c.Must(db.Backend().Set([]byte(k), v, pebble.Sync), "set")
		}
	}}
}

// foreign puts records of others next to those of the filters.
func (x *c14) foreign() {
	for _, f := range x.fs {
		p := f.prefix
		if p == nil {
			p = bond.KeyEncode(bond.Key{PrimaryKey: []byte("bf_")})
		}
		if x.kind == "fs" {
			for _, n := range []string{"other.txt", "sub/alpha_1", "%zz", "zeta_bn", "alpha", "bet", "%00", "alphb_0"} {
				x.st.put(n, []byte("foreign"))
			}
		}
		// keys of another user of the store next to those of the filter
		put := func(k string, v []byte) {
			if x.kind != "fs" {
				x.st.put(k, v)
				return
			}
			before := x.st.list()
			if err := x.st.in.Set([]byte(k), v, bond.Sync); err != nil {
				x.c.Fail("foreign", "Set of key %q: %v", k, err)
			}
			for n := range x.st.list() {
				if _, ok := before[n]; !ok {
					x.others[n] = true
				}
			}
		}
		near := func(d int) string {
			k := append([]byte(nil), p...)
			k[len(k)-1] += byte(d)
			return string(k)
		}
		if p[len(p)-1] != 0xff {
			put(near(1), []byte("f1"))
			put(near(1)+"bn", []byte("f1"))
		}
		if p[len(p)-1] != 0 {
			put(near(-1)+"\xff\xff", []byte("f2"))
		}
		put(string(p[:len(p)-1]), []byte("f3"))
	}
}

// checkForeign looks for the entries of others.
func (x *c14) checkForeign(what string) {
	now := x.st.list()
	for k, v := range x.fgn {
		if w, ok := now[k]; !ok || !bytes.Equal(v, w) {
			x.c.Fail("foreign", "%s removed or changed %q, which is not the filter's", what, k)
		}
	}
}

// own says whether an entry of the store belongs to a filter.
func (x *c14) own(f *c14Filter, k string) bool {
	p := f.prefix
	if p == nil {
		p = bond.KeyEncode(bond.Key{PrimaryKey: []byte("bf_")})
	}
	if x.others[k] {
		return false
	}
	if x.kind != "fs" {
		return len(k) >= len(p) && k[:len(p)] == string(p)
	}
	key, ok := c14FileKey(k)
	return ok && bytes.HasPrefix(key, p)
}

// c14FileKey decodes the name of a file of the file store.
func c14FileKey(name string) ([]byte, bool) {
	var key []byte
	for i := 0; i < len(name); i++ {
		switch {
		case name[i] == '/':
			return nil, false
		case name[i] != '%':
			key = append(key, name[i])
		default:
			if i+2 >= len(name) {
				return nil, false
			}
			var b byte
			if _, err := fmt.Sscanf(name[i+1:i+3], "%02x", &b); err != nil {
				return nil, false
			}
			key = append(key, b)
			i += 2
		}
	}
	return key, true
}

func (x *c14) rowKeys(f *c14Filter) map[string]bool {
	out := map[string]bool{}
	for _, t := range f.tabs {
		for _, r := range x.ms[t].Rows {
			r := r
			out[string(x.defs[t].dataKey(&r))] = true
		}
	}
	return out
}

// life starts a process: filters are created and initialized, tables used.
func (x *c14) life() {
	c, r := x.c, x.r
	for _, f := range x.fs {
		old := [3]any{f.n, f.fp, f.bk}
		if f.bk == 0 || r.Intn(4) == 0 {
			f.n, f.fp, f.bk = uint(pick(r, []int{10, 200, 5000})), pick(r, []float64{0.3, 0.05, 0.01}), pick(r, []int{1, 2, 5, 12, 30})
		} else if r.Intn(8) == 0 {
			f.n *= 2
		}
		if changed := old != [3]any{f.n, f.fp, f.bk}; changed {
			f.saved = false
		}
		if f.prefix == nil {
			f.f = bloom.NewBloomFilter(f.n, f.fp, f.bk)
		} else {
			f.f = bloom.NewBloomFilter(f.n, f.fp, f.bk, f.prefix)
		}
		f.lazy = &bond.FilterInitializable{Filter: f.f}
		f.init = false
		for _, t := range f.tabs {
			x.defs[t].Filter = f.lazy
		}
	}
	x.ts = nil
	for _, d := range x.defs {
		x.ts = append(x.ts, newTab(x.e.db, d))
	}
	if r.Intn(4) == 0 {
		x.write(1 + r.Intn(2)) // before the initialization
	}
	for _, f := range x.fs {
		x.initialize(f)
	}
	for n := 1 + r.Intn(6); n > 0; n-- {
		switch r.Intn(7) {
		case 0, 1, 2:
			x.write(1 + r.Intn(3))
		case 3, 4, 5:
			x.save(pick(r, x.fs))
		default:
			if f := pick(r, x.fs); r.Intn(3) == 0 {
				x.clear(f)
			}
		}
	}
	_ = c
}

func (x *c14) write(n int) {
	for ; n > 0; n-- {
		t := x.r.Intn(len(x.ts))
		h := &Hist{c: x.c, e: x.e, t: x.ts[t], m: x.ms[t], r: x.r, p: x.p, batch: true, unsaf: true}
		h.step(x.c.Fail)
	}
}

func (x *c14) initialize(f *c14Filter) {
	c, r := x.c, x.r
	entries := 0
	for k := range x.st.list() {
		if x.own(f, k) {
			entries++
		}
	}
	if entries > 0 {
		c.Nontrivial()
	}
	var scs []bond.TableScanner[any]
	for _, t := range f.tabs {
		scs = append(scs, x.ts[t].AnyScanner())
	}
	r.Shuffle(len(scs), func(i, j int) { scs[i], scs[j] = scs[j], scs[i] })
	var ctx context.Context = bg
	what := "plain"
	switch r.Intn(6) {
	case 0:
		x.st.fault(r.Intn(f.bk+3), pick(r, []string{"", "get", "delete"}))
		what = "failing store"
	case 1:
		ctx = newTickCtx(1+r.Intn(8), context.Canceled)
		what = "cancelled"
	}
	err := f.lazy.Initialize(ctx, x.st, scs)
	hits := x.st.hits
	x.st.fault(-1, "")
	x.checkForeign("initialization of a filter")
	c.Logf("init (%s, %d entries, saved %v, config %d/%v/%d): %v", what, entries, f.saved, f.n, f.fp, f.bk, err)
	c.Count("init-"+what, 1)
	if err != nil {
		tick, ok := ctx.(*tickCtx)
		if hits == 0 && !(ok && tick.cancelled()) {
			c.Fail("init", "Initialize failed without cause: %v", err)
		}
		// not initialized: every row may be there
		for k := range x.rowKeys(f) {
			if !f.lazy.MayContain(bg, []byte(k)) {
				c.Fail("hidden", "a filter whose initialization failed hides the row %s", showKey([]byte(k)))
			}
		}
		f.saved = f.saved && x.kept(f)
		if r.Intn(3) == 0 {
			return
		}
		// the failure over, it can be initialized
		if err := f.lazy.Initialize(bg, x.st, scs); err != nil {
			c.Fail("init", "Initialize after a failed one: %v", err)
		}
	}
	f.init = true
	x.checkForeign("initialization of a filter")
	x.lookup(f, "initialization", true)
	if x.entries(f) == 0 {
		f.saved = false
	}
}

func (x *c14) entries(f *c14Filter) int {
	n := 0
	for k := range x.st.list() {
		if x.own(f, k) {
			n++
		}
	}
	return n
}

// kept: the save is still in the store.
func (x *c14) kept(f *c14Filter) bool { return x.entries(f) > 0 }

// lookup looks all rows up in the initialized filter.
func (x *c14) lookup(f *c14Filter, what string, fresh bool) {
	c := x.c
	n := 0
	stale := ""
	for k := range x.rowKeys(f) {
		n++
		if f.lazy.MayContain(bg, []byte(k)) {
			continue
		}
		if fresh && f.saved && !f.covered[k] {
			stale = k
			continue
		}
		c.Fail("hidden", "after %s the filter hides the row %s (complete save in store %v, row in it %v)", what, showKey([]byte(k)), f.saved, f.covered[k])
	}
	c.Eval(n)
	c.Count("lookups", n)
	if stale != "" {
		c.Count("stale", 1)
		c.Fail("stale-save", "after %s the filter hides the row %s written after the last complete save", what, showKey([]byte(stale)))
	}
}

func (x *c14) save(f *c14Filter) {
	c, r := x.c, x.r
	if !f.init {
		if err := f.lazy.Save(bg, x.st); err == nil {
			c.Fail("save", "saving a filter that is not initialized succeeded")
		}
		return
	}
	before := x.st.list()
	if r.Intn(3) == 0 {
		x.st.fault(r.Intn(f.bk+2), "")
	}
	err := f.lazy.Save(bg, x.st)
	hits := x.st.hits
	x.st.fault(-1, "")
	c.Logf("save: %v", err)
	if (err != nil) != (hits > 0) {
		c.Fail("save", "Save returned %v, %d store operations failed", err, hits)
	}
	after := x.st.list()
	for k, v := range before {
		if w, ok := after[k]; (!ok || !bytes.Equal(v, w)) && !x.own(f, k) {
			c.Fail("foreign", "saving a filter changed the foreign entry %q", k)
		}
	}
	for k := range after {
		if _, ok := before[k]; !ok && !x.own(f, k) {
			c.Fail("foreign", "saving a filter added %q, which is not under its prefix", k)
		}
	}
	if err != nil {
		c.Count("failed-saves", 1)
		return
	}
	c.Count("saves", 1)
	f.saved, f.covered = true, x.rowKeys(f)
	x.reload(f)
}

// reload loads what was saved into another filter.
func (x *c14) reload(f *c14Filter) {
	c, r := x.c, x.r
	g := bloom.NewBloomFilter(f.n, f.fp, f.bk)
	if f.prefix != nil {
		g = bloom.NewBloomFilter(f.n, f.fp, f.bk, f.prefix)
	}
	if err := g.Load(bg, x.st); err != nil {
		c.Fail("load", "loading a complete save failed: %v", err)
	}
	for k := range x.rowKeys(f) {
		if !g.MayContain(bg, []byte(k)) {
			c.Fail("load", "saved and loaded, the filter hides the row %s", showKey([]byte(k)))
		}
	}
	for i := 0; i < 40; i++ {
		k := specKey(1, 0, nil, nil, beN(r.Uint64(), 8))
		if f.f.MayContain(bg, k) != g.MayContain(bg, k) {
			c.Fail("load", "the loaded filter answers %v for %x, the saved one %v", g.MayContain(bg, k), k, f.f.MayContain(bg, k))
		}
	}
	c.Count("loads", 1)
}

func (x *c14) clear(f *c14Filter) {
	c := x.c
	before := x.st.list()
	if err := f.lazy.Clear(bg, x.st); err != nil {
		c.Fail("clear", "Clear failed: %v", err)
	}
	after := x.st.list()
	for k, v := range before {
		w, ok := after[k]
		own := x.own(f, k)
		if own && ok {
			c.Fail("clear", "Clear left the filter's entry %q", k)
		}
		if !own && (!ok || !bytes.Equal(v, w)) {
			c.Fail("foreign", "Clear of a filter removed or changed %q, which is not under its prefix", k)
		}
		delete(after, k)
	}
	for k := range after {
		c.Fail("foreign", "Clear added %q", k)
	}
	c.Logf("clear")
	c.Count("clears", 1)
	f.saved = false
	if f.init {
		x.lookup(f, "Clear", false)
	}
}

// end stops the process and perhaps damages what it left.
func (x *c14) end() {
	c, r := x.c, x.r
	for _, f := range x.fs {
		if f.init {
			x.lookup(f, "work", false)
			// most processes save before they stop
			if r.Intn(5) > 0 {
				x.save(f)
			}
			if f.saved && r.Intn(40) > 0 {
				// leave no stale save but rarely
				fresh := true
				for k := range x.rowKeys(f) {
					fresh = fresh && f.covered[k]
				}
				if !fresh {
					if err := f.lazy.Save(bg, x.st); err != nil {
						c.Fail("save", "Save: %v", err)
					}
					f.covered = x.rowKeys(f)
				}
			}
		}
		if r.Intn(3) == 0 {
			x.damage(f)
		}
	}
	if x.kind == "db" && r.Intn(2) == 0 {
		x.e.reopen()
		x.dbStore()
	} else if r.Intn(4) == 0 {
		x.e.reopen()
		if x.kind == "db" {
			x.dbStore()
		}
	}
}

func (x *c14) damage(f *c14Filter) {
	c, r := x.c, x.r
	var own []string
	m := x.st.list()
	for k := range m {
		if x.own(f, k) {
			own = append(own, k)
		}
	}
	if len(own) == 0 {
		return
	}
	sortStrings(own)
	k := pick(r, own)
	v := append([]byte(nil), m[k]...)
	what := ""
	bn := len(v) == 8 && binary.BigEndian.Uint64(v) == uint64(f.bk)
	switch r.Intn(5) {
	case 0:
		what = "removed"
		x.st.put(k, nil)
	case 1:
		what = "truncated"
		x.st.put(k, append([]byte{}, v[:r.Intn(len(v)+1)/2]...))
	case 2:
		what = "bit flipped"
		if len(v) == 0 {
			v = []byte{1}
		} else if bn {
			v[r.Intn(8)] ^= 1 << r.Intn(8)
		} else {
			v[r.Intn(len(v))] ^= 1 << r.Intn(8)
		}
		x.st.put(k, v)
	case 3:
		what = "emptied"
		x.st.put(k, []byte{})
	default:
		what = "overwritten"
		g := make([]byte, 1+r.Intn(40))
		r.Read(g)
		x.st.put(k, g)
	}
	c.Logf("damage: %s %q", what, k)
	c.Count("damaged", 1)
	f.saved = false
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// c14Concurrent saves while keys are being added: a last save includes all.
func c14Concurrent(c *Case) {
	r := c.R
	bk := pick(r, []int{1, 2, 7})
	f := bloom.NewBloomFilter(3000, 0.01, bk)
	st := newMapStore()
	n, per := 2+r.Intn(4), 100+r.Intn(200)
	key := func(g, i int) []byte { return specKey(byte(1+g), 0, nil, nil, beN(uint64(i), 8)) }
	var left atomic.Int64
	left.Store(int64(n))
	c.Par(n+1, func(g int, r *rand.Rand) {
		if g == n {
			for left.Load() > 0 {
				if err := f.Save(bg, st); err != nil {
					c.Fail("save", "Save: %v", err)
				}
				runtime.Gosched()
			}
			return
		}
		defer left.Add(-1)
		for i := 0; i < per; i++ {
			f.Add(bg, key(g, i))
		}
	})
	if err := f.Save(bg, st); err != nil {
		c.Fail("save", "Save: %v", err)
	}
	g := bloom.NewBloomFilter(3000, 0.01, bk)
	if err := g.Load(bg, st); err != nil {
		c.Fail("load", "Load: %v", err)
	}
	for w := 0; w < n; w++ {
		for i := 0; i < per; i++ {
			if !g.MayContain(bg, key(w, i)) {
				c.Fail("load", "key %d of adder %d, added during earlier saves, is missing after a final save and load", i, w)
			}
		}
	}
	c.Count("concurrent-saves", 1)
	c.Nontrivial()
	c.Logf("concurrent %d %d %d", n, per, bk)
}
