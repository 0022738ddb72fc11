package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C26", Level: "exploration", Race: true, Quick: 500, Thorough: 2500, Run: runC26,
		Rule: "1-5 goroutines, each with its own table, batches and user keys in one database, making random writes (refused, failing in the serializer, cancelled, through batches), reads by every way (stopped early, failing, nested), with keys and values longer than the recycled buffers; a monitor in the buffer pools fills free buffers with a pattern and reports buffers handed out twice, returned twice or written while free, the race detector runs, every value handed in is compared and then overwritten after its call, every row, key and value handed out is compared again later, and results are compared with a model; non-trivial: at least 300 buffers changed hands"})
}

var errC26 = errors.New("c26: injected")

type c26 struct {
	c    *Case
	g    int
	h    *Hist
	r    *rand.Rand
	def  *TDef
	raw  map[string]string
	held []func() string // keys and values handed out
	kept []func() string // keys and values handed in
	long bool
}

// bigRow makes some rows longer than the recycled buffers.
func (x *c26) bigRow(in Row) Row {
	o := in
	switch x.r.Intn(4) {
	case 0:
		o.Str = strings.Repeat(pick(x.r, []string{"s", "ab", "é"}), 900+x.r.Intn(3000))
	case 1:
		o.Data = bytes.Repeat([]byte{byte(x.r.Intn(256))}, 1900+x.r.Intn(4000))
	case 2:
		o.Str = strings.Repeat("k", 2030+x.r.Intn(20)) // about a key buffer
	}
	if !bytes.Equal(x.h.m.Def.dataKey(&o), x.h.m.Def.dataKey(&in)) {
		return in
	}
	return o
}

func (x *c26) handOut(b []byte, what string) {
	s := string(append([]byte{}, b...))
	if cap(b) < len(b) || cap(b) > len(b)+64<<10 {
		x.bad("result", "%s has %d bytes and room for %d", what, len(b), cap(b))
	}
	x.held = append(x.held, func() string {
		if string(b) != s {
			return fmt.Sprintf("%s %x became %x", what, clipB([]byte(s)), clipB(b))
		}
		return ""
	})
}

// keepKey takes a key apart that lives for a moment only.
func (x *c26) keepKey(k []byte) {
	var key bond.Key
	if x.r.Intn(2) == 0 {
		key = bond.KeyBytes(k).ToKey()
	} else {
		key = bond.KeyDecode(k)
	}
	x.handOut(key.Index, "the index of a decoded key")
	x.handOut(key.IndexOrder, "the order of a decoded key")
	x.handOut(key.PrimaryKey, "the primary key of a decoded key")
	x.handOut(bond.KeyBytes(k).ToDataKeyBytes(), "the row key of a key")
	x.handOut(bond.KeyEncode(key), "an encoded key")
	x.handOut(bond.KeyEncode(key.ToDataKey()), "an encoded row key")
}

// handIn gives bytes to hand to bond.
func (x *c26) handIn(b []byte, what string) []byte {
	b = append([]byte{}, b...)
	s := string(append([]byte{}, b...))
	x.kept = append(x.kept, func() string {
		if string(b) != s {
			return fmt.Sprintf("%s %x became %x", what, clipB([]byte(s)), clipB(b))
		}
		for i := range b {
			b[i] ^= 0xa5
		}
		return ""
	})
	return b
}

func (x *c26) check(forget bool) {
	c := x.c
	if s := pools.problem(); s != "" {
		c.Fail("pool", "%s", s)
	}
	if s := x.h.t.KeptDiff(); s != "" {
		c.Fail("argument", "a value handed to bond was changed: %s (after %s)", s, c.lastLog())
	}
	if s := x.h.t.HeldDiff(forget); s != "" {
		c.Fail("result", "a value handed out changed: %s (after %s)", s, c.lastLog())
	}
	if s := bigChanged.Swap(""); s != nil && s != "" {
		c.Fail("argument", "a value handed to bond was changed: %v (after %s)", s, c.lastLog())
	}
	for _, f := range x.kept {
		if s := f(); s != "" {
			c.Fail("argument", "a value handed to bond was changed: %s (after %s)", s, c.lastLog())
		}
	}
	x.kept = nil
	for _, f := range x.held {
		if s := f(); s != "" {
			c.Fail("result", "a value handed out changed: %s (after %s)", s, c.lastLog())
		}
	}
	if forget {
		x.held = x.held[len(x.held)/2:]
	}
}

func runC26(c *Case) {
	r := c.R
	pools.start()
	defer pools.stop()
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR), MemTable: pick(r, []int{64 << 10, 1 << 20})})
	n := 1 + r.Intn(5)
	xs := make([]*c26, n)
	ids := []byte{1, 2, 100, 254, 255}
	c.Logf("%d goroutines", n)
	for g := range xs {
		def := randTDef(c, ids[g], 1+r.Intn(4))
		def.pkFieldsOf()
		def.Hook = func(string) error { return nil }
		x := &c26{c: c, g: g, def: def, r: rand.New(rand.NewSource(r.Int63())), raw: map[string]string{}, long: r.Intn(2) == 0}
		x.h = &Hist{c: c, e: e, t: newTab(e.db, def), m: newModel(def), r: x.r, batch: true, unsaf: true,
			p: &Profile{IDs: idPool(r, 5+r.Intn(25)), Small: r.Intn(3) > 0, Zero: pick(r, []int{20, 50})}}
		x.h.t.Hold()
		c.Logf("%d: %s", g, def.describe())
		xs[g] = x
	}
	if r.Intn(12) == 0 {
		xs[0].h.bulk = 15
	}
	c.Par(n, func(g int, _ *rand.Rand) { xs[g].run(n) })
	for _, x := range xs {
		x.def.Hook = nil
		if a, b := e.keySpaceDiff(x.h.m); a+b != "" {
			c.Fail("content", "in the end: %s%s", a, b)
		}
		x.check(false)
	}
	if err := e.close(); err != nil {
		c.Fail("close", "Close failed: %v", err)
	}
	for _, x := range xs {
		x.check(false)
	}
	pools.mu.Lock()
	gets, grown := pools.gets, pools.grown
	pools.mu.Unlock()
	c.Count("buffers-got", gets)
	c.Count("buffers-grown", grown)
	pools.stop()
	if s := pools.problem(); s != "" {
		c.Fail("pool", "%s", s)
	}
	if gets >= 300 {
		c.Nontrivial()
	}
}

func (x *c26) bad(key, f string, a ...any) { x.c.Fail(key, f, a...) }

func (x *c26) run(n int) {
	steps := 70 / (n + 1)
	if x.h.bulk > 0 {
		steps = 8
	}
	for i := 0; i < steps; i++ {
		x.step()
		x.check(i%5 == 4)
		x.c.Eval(1)
	}
}

// read runs a read and compares its result, which may be an error allowed.
func (x *c26) read(h *Hist, ctx context.Context, b bond.Batch, allowed ...error) {
	op := h.genRead(nil)
	diff, err := op.run(ctx, b)
	x.c.Logf("%d: %s -> %v", x.g, op.name, err)
	x.c.Count("read-"+op.way, 1)
	for _, a := range allowed {
		if errors.Is(err, a) {
			x.c.Count("failed-reads", 1)
			return
		}
	}
	if err != nil {
		x.bad("read", "%s failed: %v", op.name, err)
	}
	if diff != "" {
		x.bad("read", "%s: %s", op.name, diff)
	}
}

func (x *c26) write(ctx context.Context, allowed ...error) {
	w := genCall(x.h, 1+x.r.Intn(6), x.r.Intn(5) == 0)
	if x.long {
		for i := range w.rows {
			if w.name == "insert" || w.name == "update" {
				w.rows[i] = x.bigRow(w.rows[i])
			}
		}
	}
	var b bond.Batch
	switch x.r.Intn(6) {
	case 0:
		b = x.h.e.db.Batch(bond.BatchTypeReadWrite)
		defer b.Close()
	}
	err := w.run(ctx, x.h.t, b)
	x.c.Logf("%d: %s %s -> %v", x.g, w.name, ids(w.rows), err)
	x.c.Count("write", 1)
	if err == nil && b != nil {
		err = b.Commit(bond.Sync)
	}
	if err == nil {
		if w.bad {
			x.bad("write", "%s was accepted", w.name)
		}
		w.model(x.h.m)
		return
	}
	x.c.Count("failed-writes", 1)
	for _, a := range allowed {
		if errors.Is(err, a) {
			return
		}
	}
	if !w.bad {
		x.bad("write", "%s failed: %v", w.name, err)
	}
}

func (x *c26) step() {
	r, h := x.r, x.h
	switch k := r.Intn(20); {
	case k < 4:
		h.step(x.bad)
	case k < 6:
		x.write(bg)
	case k < 9:
		x.read(h, bg, nil)
	case k == 9: // a batch with several writes and reads
		o, b := h.pending(1 + r.Intn(4))
		x.read(o, bg, b)
		x.read(h, bg, nil)
		x.read(o, bg, b)
		if r.Intn(2) == 0 {
			if err := b.Commit(bond.Sync); err != nil {
				x.bad("commit", "commit failed: %v", err)
			}
			h.m = o.m
		}
		x.check(false)
		if err := b.Close(); err != nil {
			x.bad("close", "Close of a batch failed: %v", err)
		}
	case k == 10:
		x.read(h, newTickCtx(1+r.Intn(12), context.Canceled), nil, context.Canceled)
	case k == 11:
		x.write(newTickCtx(1+r.Intn(12), context.Canceled), context.Canceled)
	case k < 14: // failing in the serializer
		n := 0
		at := r.Intn(8)
		x.def.Hook = func(site string) error {
			if site == "ser" || site == "deser" {
				n++
				if n > at {
					return errC26
				}
			}
			return nil
		}
		if k == 12 {
			x.read(h, bg, nil, errC26)
		} else {
			x.write(bg, errC26)
		}
		x.def.Hook = func(string) error { return nil }
	case k == 14:
		x.forEach()
	case k == 15: // rows that are there and rows that aren't
		o, b := h, bond.Batch(nil)
		if r.Intn(3) == 0 {
			o, b = h.pending(1 + r.Intn(3))
		}
		for _, row := range append(o.present(3), o.absent(3)...) {
			_, want := o.m.Rows[row.ID]
			if got := h.t.Exist(row, b); got != want {
				x.bad("exist", "Exist(%v) is %v, want %v", row, got, want)
			}
		}
		x.c.Count("existence-tests", 1)
		if b != nil {
			if err := b.Close(); err != nil {
				x.bad("close", "Close of a batch failed: %v", err)
			}
		}
	case k == 16: // one selector for several calls
		idx := h.genIdx()
		s := h.genSel(idx)
		if s == nil {
			return
		}
		want := entRows(h.m.selEntries(idx, s, false))
		back := entRows(h.m.selEntries(idx, s, true))
		got, errs := h.t.Twice(bg, idx, *s, nil)
		x.c.Logf("%d: four calls with %s", x.g, s)
		x.c.Count("selector-reused", 1)
		for i := range got {
			w := want
			if i == 1 {
				w = back
			}
			if errs[i] != nil {
				x.bad("selector", "call %d with the selector %s failed: %v", i, s, errs[i])
			}
			if d := rowsDiff(got[i], w); d != "" {
				x.bad("selector", "call %d with the selector %s: %s", i, s, d)
			}
		}
	case k == 17: // keys handed out
		q := h.genIntersect()
		p := &QSpec{Idx: q.Idx, Sel: q.Sel}
		for _, i := range q.Inter {
			if i.Sel != nil {
				p.Inter = append(p.Inter, i)
			}
		}
		if p.Sel == nil || len(p.Inter) == 0 {
			return
		}
		keys, err := h.t.NewIntersectKeys(bg, p, nil)
		if err != nil {
			x.bad("read", "Intersect failed: %v", err)
		}
		want, _, _, _ := h.m.Eval(p)
		if len(want) != len(keys) {
			x.bad("read", "Intersect gave %d keys, want %d", len(keys), len(want))
		}
		for i, k := range keys {
			if !bytes.Equal(k, h.m.Def.dataKey(&want[i])) {
				x.bad("read", "key %d of Intersect is %s", i, showKey(k))
			}
			x.handOut(k, "key of Intersect")
		}
	default:
		x.rawOps()
	}
}

// forEach stops early or fails, and does other things inside.
func (x *c26) forEach() {
	r, h := x.r, x.h
	idx := h.genIdx()
	s := h.genSel(idx)
	rev := r.Intn(2) == 0
	want := h.m.selEntries(idx, s, rev)
	n, at := 0, r.Intn(8)
	fail := r.Intn(2) == 0
	nest := r.Intn(3)
	var last func() (Row, error)
	err := h.t.ForEach(bg, idx, selOrNone(s), rev, nil, func(k []byte, get func() (Row, error)) (bool, error) {
		if n >= len(want) || !bytes.Equal(k, want[n].key) {
			x.bad("read", "entry %d of a for-each scan is %s", n, showKey(k))
		}
		cp := append([]byte{}, k...)
		switch nest {
		case 1:
			x.read(h, bg, nil)
		case 2:
			x.rawOps()
		}
		if r.Intn(2) == 0 {
			row, err := get()
			if err != nil {
				return false, err
			}
			if !row.Equal(want[n].row) {
				x.bad("read", "row %d of a for-each scan is %v, want %v", n, row, want[n].row)
			}
		}
		if !bytes.Equal(cp, k) {
			x.bad("key", "the key of a call-back, %s, became %s before it returned", showKey(cp), showKey(k))
		}
		if r.Intn(3) == 0 {
			x.keepKey(k)
		}
		last = get
		n++
		if n > at {
			if fail {
				return true, errC26
			}
			return false, nil
		}
		return true, nil
	})
	_ = last
	x.c.Logf("%d: for-each of %s stopped after %d (nested %d) -> %v", x.g, selName(idx, s), n, nest, err)
	x.c.Count("stopped-scans", 1)
	if fail && n > at {
		if err != errC26 {
			x.bad("read", "a failing for-each scan gave %v", err)
		}
	} else if err != nil {
		x.bad("read", "a for-each scan failed: %v", err)
	}
}

// rawOps uses user keys of the database and of batches.
func (x *c26) rawOps() {
	r, db := x.r, x.h.e.db
	var b bond.Batch
	get, set, del := db.Get, db.Set, db.Delete
	cur := x.raw
	if r.Intn(3) == 0 {
		b = db.Batch(bond.BatchTypeReadWrite)
		get, set, del = b.Get, b.Set, b.Delete
		cur = map[string]string{}
		for k, v := range x.raw {
			cur[k] = v
		}
	}
	key := func() string {
		k := fmt.Sprintf("g%d-%d", x.g, r.Intn(12))
		if x.long && r.Intn(3) == 0 {
			k += strings.Repeat("x", 2040+r.Intn(20))
		}
		return k
	}
	name := func(k string, what string) []byte { return x.handIn(bond.NewUserKey(k), what) }
	for i := 0; i < 4; i++ {
		k := key()
		switch r.Intn(5) {
		case 0, 1:
			v := strings.Repeat(string(rune('a'+r.Intn(26))), 1+r.Intn(30))
			if r.Intn(4) == 0 {
				v = strings.Repeat(v, 200)
			}
			if err := set(name(k, "key of Set"), x.handIn([]byte(v), "value of Set"), bond.Sync); err != nil {
				x.bad("raw", "Set failed: %v", err)
			}
			cur[k] = v
		case 2:
			if err := del(name(k, "key of Delete"), bond.Sync); err != nil {
				x.bad("raw", "Delete failed: %v", err)
			}
			delete(cur, k)
		case 3:
			v, cl, err := get(name(k, "key of Get"))
			w, ok := cur[k]
			if !ok {
				if !isNotFound(err) {
					x.bad("raw", "Get of an absent key gave %v", err)
				}
				break
			}
			if err != nil || string(v) != w {
				x.bad("raw", "Get gave %q (%v), want %q", clipB(v), err, clipB([]byte(w)))
			}
			// valid until closed
			x.read(x.h, bg, nil)
			if string(v) != w {
				x.bad("result", "the value of Get changed before it was closed: %q became %q", clipB([]byte(w)), clipB(v))
			}
			_ = cl.Close()
		case 4:
			lo, hi := name(fmt.Sprintf("g%d-", x.g), "lower bound"), name(fmt.Sprintf("g%d.", x.g), "upper bound")
			var src bond.Iterationer = db
			if b != nil {
				src = b
			}
			it := src.Iter(&bond.IterOptions{IterOptions: pebble.IterOptions{LowerBound: lo, UpperBound: hi}})
			x.check(false) // the bounds are overwritten here
			var ks []string
			for k := range cur {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return bytes.Compare(bond.NewUserKey(ks[i]), bond.NewUserKey(ks[j])) < 0 })
			n := 0
			for ok := it.First(); ok; ok = it.Next() {
				if n >= len(ks) || !bytes.Equal(it.Key(), bond.NewUserKey(ks[n])) || string(it.Value()) != cur[ks[n]] {
					x.bad("raw", "entry %d of an iterator is %s, of %d", n, showKey(it.Key()), len(ks))
				}
				if r.Intn(4) == 0 {
					x.keepKey(it.Key())
				}
				kk, vv := append([]byte{}, it.Key()...), append([]byte{}, it.Value()...)
				if r.Intn(4) == 0 {
					x.read(x.h, bg, nil)
				}
				if !bytes.Equal(kk, it.Key()) || !bytes.Equal(vv, it.Value()) {
					x.bad("result", "the entry %s of an iterator changed before it moved", showKey(kk))
				}
				n++
			}
			if n != len(ks) {
				x.bad("raw", "an iterator gave %d of %d entries", n, len(ks))
			}
			if err := it.Close(); err != nil {
				x.bad("raw", "Close of an iterator failed: %v", err)
			}
		}
		x.check(false)
	}
	x.c.Count("raw", 1)
	if b != nil {
		if r.Intn(2) == 0 {
			if err := b.Commit(bond.Sync); err != nil {
				x.bad("commit", "commit failed: %v", err)
			}
			x.raw = cur
		}
		_ = b.Close()
	}
}
