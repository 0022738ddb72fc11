package main

import (
	"bytes"
	"context"
	"fmt"
	"sort"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C05", Level: "exploration", Quick: 3200, Thorough: 40000, Run: runC05,
		Rule: "random interleavings of direct writes and writes through up to 3 open read-write and write-only batches on two tables and raw keys (each key owned by one of them until it ends), with commits, closes, resets and applies, applied batches read, committed and applied again; after every action all read paths, without a batch and through each read-write batch, are compared with the committed state overlaid with that batch's own writes, and reads through write-only batches must fail; after commits the raw key space is compared; non-trivial: a case with at least 2 commits and 2 discards or applies",
	})
}

// effects of a batch: row id -> row, nil: deleted
type effects map[uint64]*Row

type obatch struct {
	b    bond.Batch
	rw   bool
	name string
	eff  []effects          // per table
	raw  map[string]*string // raw keys
}

type c05 struct {
	c     *Case
	e     *Env
	defs  []*TDef
	tabs  []Tab
	ms    []*Model // committed
	prof  *Profile
	raw   map[string]string
	bats  []*obatch
	n     int
	bulks int
	owner []map[uint64]*obatch
	rawow map[string]*obatch
	marks [4]int
}

func rawKey(i int) string { return string([]byte{200, 3, 0, 0, 0, 0, byte(i >> 4), byte(i)}) }

func (x *c05) newEffects() []effects {
	var out []effects
	for range x.defs {
		out = append(out, effects{})
	}
	return out
}

func (x *c05) overlay(t int, o *obatch) *Model {
	m := x.ms[t].Clone()
	if o != nil {
		for id, r := range o.eff[t] {
			if r == nil {
				delete(m.Rows, id)
			} else {
				m.Rows[id] = *r
			}
		}
	}
	return m
}

func (x *c05) rawOverlay(o *obatch) map[string]string {
	m := map[string]string{}
	for k, v := range x.raw {
		m[k] = v
	}
	if o != nil {
		for k, v := range o.raw {
			if v == nil {
				delete(m, k)
			} else {
				m[k] = *v
			}
		}
	}
	return m
}

func runC05(c *Case) {
	r := c.R
	x := &c05{c: c, raw: map[string]string{}, rawow: map[string]*obatch{}}
	x.e = newEnv(c, EnvCfg{Ser: newSerializer(serCBOR), MemTable: pick(r, []int{64 << 10, 1 << 20})})
	x.prof = &Profile{IDs: idPool(r, 8+r.Intn(20)), Small: r.Intn(3) > 0, Zero: pick(r, []int{20, 50})}
	for _, id := range []byte{pick(r, []byte{1, 10}), pick(r, []byte{2, 11, 255})} {
		d := randTDef(c, id, 1+r.Intn(3))
		if r.Intn(4) == 0 {
			d.addFilter(c)
		}
		t := newTab(x.e.db, d)
		d.initFilter(c, x.e, t)
		x.defs, x.tabs, x.ms = append(x.defs, d), append(x.tabs, t), append(x.ms, newModel(d))
		x.owner = append(x.owner, map[uint64]*obatch{})
		c.Logf("%s filter=%v", d.describe(), d.Filter != nil)
	}
	for i := 0; i < 45; i++ {
		x.action()
		x.read()
		x.read()
	}
	for len(x.bats) > 0 {
		x.end(x.bats[0], r.Intn(3))
	}
	x.keySpace("at the end")
	if r.Intn(4) == 0 {
		x.e.reopen()
		x.keySpace("after reopening")
	}
	if x.marks[0] >= 2 && x.marks[1]+x.marks[2] >= 2 {
		c.Nontrivial()
	}
}

// hist is the view of one owner on one table: nil is the database.
func (x *c05) hist(t int, o *obatch) *Hist {
	h := &Hist{c: x.c, e: x.e, t: x.tabs[t], m: x.overlay(t, o), r: x.c.R, noRef: true, unsaf: true, fresh: uint64(x.n) << 20}
	p := *x.prof
	p.IDs = nil
	for _, id := range x.prof.IDs {
		if w := x.owner[t][id]; w == nil || w == o {
			p.IDs = append(p.IDs, id)
		}
	}
	h.p = &p
	if o != nil {
		h.t = &batchTab{Tab: x.tabs[t], b: o.b}
	}
	return h
}

func (x *c05) fail(f string, a ...any) { x.c.Fail("batch", f, a...) }

func (x *c05) action() {
	c, r := x.c, x.c.R
	switch k := r.Intn(100); {
	case k < 14 && len(x.bats) < 3 || len(x.bats) == 0:
		x.n++
		o := &obatch{rw: r.Intn(4) > 0, eff: x.newEffects(), raw: map[string]*string{}}
		bt := bond.BatchTypeReadWrite
		o.name = fmt.Sprintf("rw%d", x.n)
		if !o.rw {
			bt, o.name = bond.BatchTypeWriteOnly, fmt.Sprintf("wo%d", x.n)
		}
		o.b = x.e.db.Batch(bt)
		if o.b.Type() != bt {
			x.fail("a batch of type %v says it is of type %v", bt, o.b.Type())
		}
		x.bats = append(x.bats, o)
		c.Logf("open %s", o.name)
	case k < 32: // direct
		t := r.Intn(len(x.defs))
		h := x.hist(t, nil)
		if len(h.p.IDs) == 0 {
			return
		}
		c.Logf("t%d direct:", x.defs[t].ID)
		h.step(func(key, f string, a ...any) { x.fail("direct "+f, a...) })
		x.ms[t] = h.m
	case k < 36:
		x.rawWrite(nil)
	case k < 42:
		x.rawWrite(pick(r, x.bats))
	case k < 74:
		o := pick(r, x.bats)
		t := r.Intn(len(x.defs))
		if o.rw {
			x.rwStep(o, t)
		} else {
			x.woStep(o, t)
		}
	case k < 84:
		x.end(pick(r, x.bats), 0)
	case k < 88:
		x.end(pick(r, x.bats), 1)
	case k < 92:
		x.end(pick(r, x.bats), 2)
	case k < 96 && len(x.bats) > 1:
		x.apply()
	case k < 98:
		x.e.flush()
	default:
		x.e.compact()
	}
}

func (x *c05) rwStep(o *obatch, t int) {
	h := x.hist(t, o)
	if len(h.p.IDs) == 0 {
		return
	}
	if x.c.R.Intn(150) == 0 && x.bulks < 3 {
		free := true
		for id, w := range x.owner[t] {
			free = free && (id < 1<<40 || w == o)
		}
		if free {
			x.bulks++
			h.bulk, h.fresh = 100, 1<<40+uint64(x.bulks)<<20
			x.c.Count("bulk-through-batch", 1)
		}
	}
	x.c.Logf("t%d through %s:", x.defs[t].ID, o.name)
	h.step(func(key, f string, a ...any) { x.fail("through "+o.name+": "+f, a...) })
	x.c.Count("batch-writes", 1)
	x.take(o, t, h.t.(*batchTab).touched, h.m)
}

func (x *c05) take(o *obatch, t int, touched map[uint64]bool, after *Model) {
	for id := range touched {
		x.owner[t][id] = o
		o.eff[t][id] = nil
		if n, ok := after.Rows[id]; ok {
			o.eff[t][id] = &n
		}
	}
}

// woStep writes rows the batch has not touched: its reads go to the database.
func (x *c05) woStep(o *obatch, t int) {
	c, r := x.c, x.c.R
	h := x.hist(t, o)
	var idsLeft []uint64
	for _, id := range h.p.IDs {
		if x.owner[t][id] == nil {
			idsLeft = append(idsLeft, id)
		}
	}
	h.p.IDs = idsLeft
	if len(idsLeft) == 0 {
		return
	}
	after := x.ms[t].Clone()
	bt := &batchTab{Tab: x.tabs[t], b: o.b}
	n := 1 + r.Intn(3)
	var err error
	what := ""
	switch r.Intn(4) {
	case 0:
		rs := h.absent(n)
		what, err = "insert "+ids(rs), bt.Insert(bg, rs, o.b)
		after.Put(rs)
	case 1:
		rs := h.present(n)
		for i := range rs {
			rs[i] = h.p.mutate(r, rs[i])
		}
		what, err = "update "+ids(rs), bt.Update(bg, rs, o.b)
		after.Put(rs)
	case 2:
		rs := append(h.present(1), h.absent(n)...)
		for i := range rs {
			rs[i] = h.p.mutate(r, rs[i])
		}
		what, err = "upsert "+ids(rs), bt.Upsert(bg, rs, foldSum, o.b)
		after.Upsert(rs, foldSum)
	default:
		rs := h.present(n)
		what, err = "delete "+ids(rs), bt.Delete(bg, rs, o.b)
		after.Del(rs)
	}
	c.Logf("t%d through %s: %s", x.defs[t].ID, o.name, what)
	if err != nil {
		x.fail("through %s: %s failed: %v", o.name, what, err)
	}
	x.c.Count("batch-writes", 1)
	x.take(o, t, bt.touched, after)
}

func (x *c05) rawWrite(o *obatch) {
	c, r := x.c, x.c.R
	var keys []string
	for i := 0; i < 12; i++ {
		if w := x.rawow[rawKey(i)]; w == nil || w == o {
			keys = append(keys, rawKey(i))
		}
	}
	if len(keys) == 0 {
		return
	}
	name := "database"
	if o != nil {
		name = o.name
	}
	k := pick(r, keys)
	apply := func(k string, v *string) {
		if o != nil {
			o.raw[k] = v
			x.rawow[k] = o
		} else if v == nil {
			delete(x.raw, k)
		} else {
			x.raw[k] = *v
		}
	}
	var err error
	via := r.Intn(2) == 0
	switch r.Intn(5) {
	case 0, 1, 2:
		v := fmt.Sprint("v", r.Intn(1000))
		if o == nil {
			err = x.e.db.Set([]byte(k), []byte(v), bond.Sync)
		} else if via {
			err = x.e.db.Set([]byte(k), []byte(v), bond.Sync, o.b)
		} else {
			err = o.b.Set([]byte(k), []byte(v), bond.Sync)
		}
		apply(k, &v)
		c.Logf("raw set %x=%s %s", k, v, name)
	case 3:
		if o == nil {
			err = x.e.db.Delete([]byte(k), bond.Sync)
		} else if via {
			err = x.e.db.Delete([]byte(k), bond.Sync, o.b)
		} else {
			err = o.b.Delete([]byte(k), bond.Sync)
		}
		apply(k, nil)
		c.Logf("raw delete %x %s", k, name)
	default:
		// the range up to the first key that is not ours
		i := bytes.IndexByte([]byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, k[7])
		j := i
		for j < 12 && (x.rawow[rawKey(j)] == nil || x.rawow[rawKey(j)] == o) {
			apply(rawKey(j), nil)
			j++
		}
		lo, hi := []byte(rawKey(i)), []byte(rawKey(j))
		if o == nil {
			err = x.e.db.DeleteRange(lo, hi, bond.Sync)
		} else if via {
			err = x.e.db.DeleteRange(lo, hi, bond.Sync, o.b)
		} else {
			err = o.b.DeleteRange(lo, hi, bond.Sync)
		}
		c.Logf("raw delete range %x..%x %s", lo, hi, name)
	}
	if err != nil {
		x.fail("raw write through %s failed: %v", name, err)
	}
}

func (x *c05) land(o *obatch, on *obatch) {
	for t := range x.defs {
		for id, v := range o.eff[t] {
			delete(x.owner[t], id)
			switch {
			case on != nil:
				on.eff[t][id] = v
				x.owner[t][id] = on
			case v == nil:
				delete(x.ms[t].Rows, id)
			default:
				x.ms[t].Rows[id] = *v
			}
		}
	}
	for k, v := range o.raw {
		delete(x.rawow, k)
		switch {
		case on != nil:
			on.raw[k] = v
			x.rawow[k] = on
		case v == nil:
			delete(x.raw, k)
		default:
			x.raw[k] = *v
		}
	}
	o.eff, o.raw = x.newEffects(), map[string]*string{}
}

func (x *c05) drop(o *obatch) {
	for t := range x.defs {
		for id := range o.eff[t] {
			delete(x.owner[t], id)
		}
	}
	for k := range o.raw {
		delete(x.rawow, k)
	}
	o.eff, o.raw = x.newEffects(), map[string]*string{}
}

func (x *c05) remove(o *obatch) {
	if err := o.b.Close(); err != nil {
		x.fail("closing %s failed: %v", o.name, err)
	}
	for i := range x.bats {
		if x.bats[i] == o {
			x.bats = append(x.bats[:i:i], x.bats[i+1:]...)
			return
		}
	}
}

// end commits (0), closes (1) or resets (2) a batch.
func (x *c05) end(o *obatch, how int) {
	c, r := x.c, x.c.R
	x.marks[how]++
	switch how {
	case 0:
		opt := pick(r, []bond.WriteOptions{bond.Sync, bond.Sync, bond.NoSync})
		var err error
		if r.Intn(4) == 0 {
			c.Logf("database applies %s", o.name)
			err = x.e.db.Apply(o.b, opt)
		} else {
			c.Logf("commit %s", o.name)
			err = o.b.Commit(opt)
		}
		if err != nil {
			x.fail("committing %s failed: %v", o.name, err)
		}
		c.Count("commits", 1)
		x.land(o, nil)
		x.remove(o)
		x.keySpace("after committing " + o.name)
	case 1:
		c.Logf("close %s", o.name)
		c.Count("closes", 1)
		x.drop(o)
		x.remove(o)
		x.keySpace("after closing " + o.name)
	case 2:
		c.Logf("reset %s", o.name)
		c.Count("resets", 1)
		id := o.b.ID()
		o.b.Reset()
		if !o.b.Empty() || o.b.Len() > 12 {
			x.fail("%s is not empty after a reset: length %d", o.name, o.b.Len())
		}
		_ = id
		x.drop(o)
		x.keySpace("after resetting " + o.name)
		if r.Intn(3) == 0 {
			x.end(o, 0)
		} else if len(x.bats) > 3 {
			x.remove(o)
		}
	}
}

func (x *c05) apply() {
	c, r := x.c, x.c.R
	i := r.Intn(len(x.bats))
	j := (i + 1 + r.Intn(len(x.bats)-1)) % len(x.bats)
	a, b := x.bats[i], x.bats[j]
	c.Logf("apply %s onto %s", a.name, b.name)
	c.Count("applies", 1)
	x.marks[2]++
	lenA, wasEmpty := a.b.Len(), a.b.Empty()
	if err := b.b.Apply(a.b, bond.Sync); err != nil {
		x.fail("applying %s onto %s failed: %v", a.name, b.name, err)
	}
	if r.Intn(2) == 0 {
		x.land(a, b)
		x.remove(a)
		return
	}
	x.reuse(a, b, lenA, wasEmpty)
}

// reuse uses a batch again that was applied to another: it keeps its writes.
func (x *c05) reuse(a, b *obatch, lenA int, wasEmpty bool) {
	c, r := x.c, x.c.R
	// what a holds, whoever owns the rows
	keep := &obatch{b: a.b, rw: a.rw, name: a.name, eff: a.eff, raw: a.raw}
	if a.b.Empty() != wasEmpty || a.b.Len() != lenA {
		x.fail("%s has %d bytes after it was applied to %s, %d before", a.name, a.b.Len(), b.name, lenA)
	}
	x.land(a, b)
	for i := r.Intn(3); i > 0; i-- {
		x.readFor(keep)
	}
	c.Count("applied-again", 1)
	commit := func(o bond.Batch, name string) {
		for t := range x.defs {
			for id, v := range keep.eff[t] {
				if v == nil {
					delete(x.ms[t].Rows, id)
				} else {
					x.ms[t].Rows[id] = *v
				}
			}
		}
		for k, v := range keep.raw {
			if v == nil {
				delete(x.raw, k)
			} else {
				x.raw[k] = *v
			}
		}
		var err error
		if r.Intn(3) == 0 {
			err = x.e.db.Apply(o, bond.Sync)
		} else {
			err = o.Commit(bond.Sync)
		}
		if err != nil {
			x.fail("committing %s failed: %v", name, err)
		}
		x.keySpace("after committing " + name)
	}
	switch r.Intn(4) {
	case 0:
		c.Logf("commit %s too", a.name)
		commit(a.b, a.name+", which was applied to "+b.name)
	case 1:
		x.end(b, 1+r.Intn(2))
		c.Logf("commit %s instead", a.name)
		commit(a.b, a.name+", which was applied to "+b.name)
	case 2:
		x.end(b, 1)
		c.Logf("apply %s to another batch and commit that", a.name)
		o := x.e.db.Batch(pick(r, []bond.BatchType{bond.BatchTypeReadWrite, bond.BatchTypeWriteOnly}))
		if err := o.Apply(a.b, bond.Sync); err != nil {
			x.fail("applying %s a second time failed: %v", a.name, err)
		}
		commit(o, "the second batch "+a.name+" was applied to")
		_ = o.Close()
	default:
		c.Logf("apply %s onto %s again", a.name, b.name)
		if err := b.b.Apply(a.b, bond.Sync); err != nil {
			x.fail("applying %s onto %s again failed: %v", a.name, b.name, err)
		}
	}
	x.remove(a)
}

func (x *c05) keySpace(when string) {
	for t := range x.defs {
		d, i := x.e.keySpaceDiff(x.ms[t])
		if d == "" {
			d = i
		}
		if d != "" {
			x.fail("%s the database differs from the direct calls: %s", when, d)
		}
	}
	x.c.Eval(1)
}

// read compares one read path of one table for one reader.
func (x *c05) read() {
	r := x.c.R
	var o *obatch
	if len(x.bats) > 0 && r.Intn(3) > 0 {
		o = pick(r, x.bats)
	}
	x.readFor(o)
}

func (x *c05) readFor(o *obatch) {
	c, r := x.c, x.c.R
	t := r.Intn(len(x.defs))
	who := "database"
	var b bond.Batch
	if o != nil {
		who, b = o.name, o.b
		if !o.rw {
			x.woReads(o, t)
			return
		}
	}
	h := &Hist{c: c, e: x.e, t: x.tabs[t], m: x.overlay(t, o), r: r, p: x.prof}
	c.Eval(1)
	c.Count("reads", 1)
	fail := func(f string, a ...any) {
		x.fail("reading table %d through %s: %s", x.defs[t].ID, who, fmt.Sprintf(f, a...))
	}
	switch k := r.Intn(9); k {
	case 0, 1:
		for i := 0; i < 4; i++ {
			p := x.prof.row(r)
			want, ok := h.m.Rows[p.ID]
			if got := h.t.Exist(p, b); got != ok {
				fail("Exist(%d) is %v", p.ID, got)
			}
			got, err := h.t.GetPoint(bg, p, b)
			if (err == nil) != ok || err != nil && !isNotFound(err) {
				fail("GetPoint(%d) gives %v, expected there: %v", p.ID, err, ok)
			}
			if ok && !got.Equal(want) {
				fail("GetPoint(%d) gives %v, want %v", p.ID, got, want)
			}
		}
	case 2:
		var pts []Row
		for i := 0; i < 6; i++ {
			pts = append(pts, x.prof.row(r))
		}
		rs, oks, err := h.t.Get(bg, Sel{Kind: selPoints, Rows: pts}, b)
		if err != nil || len(rs) != len(pts) {
			fail("Get of %d points gives %d rows, %v", len(pts), len(rs), err)
		}
		for i, p := range pts {
			if want, ok := h.m.Rows[p.ID]; ok && !rs[i].Equal(want) || !ok && oks[i] {
				fail("Get(points) of %d gives %v (%v), want %v (%v)", p.ID, rs[i], oks[i], want, ok)
			}
		}
	case 3:
		q := h.genQuery()
		got, err := h.t.Query(bg, q, b)
		if d := h.m.qDiff(q, got, err); d != "" {
			fail("query %v: %s", q, d)
		}
	case 4:
		q := h.genIntersect()
		got, err := h.t.Query(bg, q, b)
		if d := h.m.qDiff(q, got, err); d != "" {
			fail("query %v: %s", q, d)
		}
	case 5:
		x.rawReads(o)
	default:
		idx := h.genIdx()
		s := h.genSel(idx)
		rev := r.Intn(2) == 0
		c.Logf("read t%d through %s", x.defs[t].ID, who)
		h.selReads(idx, s, rev, h.m.selEntries(idx, s, rev), b, r.Intn(6))
	}
}

func (x *c05) rawReads(o *obatch) {
	r := x.c.R
	want := x.rawOverlay(o)
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var bb []bond.Batch
	who := "database"
	if o != nil {
		bb, who = []bond.Batch{o.b}, o.name
	}
	for i := 0; i < 12; i++ {
		k := rawKey(i)
		get := x.e.db.Get
		var v []byte
		cl, err := func() (interface{ Close() error }, error) {
			var e error
			var c interface{ Close() error }
			if o != nil && r.Intn(2) == 0 {
				v, c, e = o.b.Get([]byte(k))
			} else {
				v, c, e = get([]byte(k), bb...)
			}
			return c, e
		}()
		w, ok := want[k]
		if (err == nil) != ok || err != nil && err != pebble.ErrNotFound {
			x.fail("raw get %x through %s: %v, expected there: %v", k, who, err, ok)
		}
		if err == nil {
			if string(v) != w {
				x.fail("raw get %x through %s: %s, want %s", k, who, v, w)
			}
			_ = cl.Close()
		}
	}
	opt := &bond.IterOptions{IterOptions: pebble.IterOptions{LowerBound: []byte(rawKey(0)), UpperBound: []byte(rawKey(12))}}
	var it bond.Iterator
	if o != nil && r.Intn(2) == 0 {
		it = o.b.Iter(opt)
	} else {
		it = x.e.db.Iter(opt, bb...)
	}
	i := 0
	for v := it.First(); v; v = it.Next() {
		if i >= len(keys) || string(it.Key()) != keys[i] || string(it.Value()) != want[keys[i]] {
			x.fail("raw iterator through %s: entry %d is %x=%s", who, i, it.Key(), it.Value())
		}
		i++
	}
	if err := it.Close(); err != nil || i != len(keys) {
		x.fail("raw iterator through %s: %d entries of %d, %v", who, i, len(keys), err)
	}
}

// woReads checks that reads through a write-only batch report an error.
func (x *c05) woReads(o *obatch, t int) {
	c, r := x.c, x.c.R
	tb := x.tabs[t]
	h := &Hist{c: c, e: x.e, t: tb, m: x.overlay(t, o), r: r, p: x.prof}
	idx := h.genIdx()
	s := h.genSel(idx)
	for s != nil && len(s.Rows) == 0 {
		s = h.genSel(idx)
	}
	var what string
	var err error
	keep := func(_ []byte, get func() (Row, error)) (bool, error) { _, err := get(); return true, err }
	ctx := context.Background()
	p := x.prof.row(r)
	if d := x.defs[t].Filter; d != nil {
		// what the filter rules out is not looked up
		p.ID = 0
		for id := range h.m.Rows {
			p = h.m.Rows[id].Clone()
			break
		}
		if len(h.m.Rows) == 0 {
			return
		}
	}
	n := 0
	switch r.Intn(9) {
	case 0:
		what = "GetPoint"
		_, err = tb.GetPoint(ctx, p, o.b)
		if err != nil && isNotFound(err) {
			x.fail("%s through %s reports absence: %v", what, o.name, err)
		}
	case 1:
		what = "Get(points)"
		_, _, err = tb.Get(ctx, Sel{Kind: selPoints, Rows: []Row{p}}, o.b)
	case 2:
		what = "Get(range)"
		var rs []Row
		rs, _, err = tb.Get(ctx, Sel{Kind: selRange, Rows: []Row{extremeRow(false), extremeRow(true)}}, o.b)
		n = len(rs)
	case 3:
		what = "Scan"
		_, err = tb.Scan(ctx, r.Intn(2) == 0, o.b)
	case 4:
		what = "ForEach " + selName(idx, s)
		err = tb.ForEach(ctx, idx, selOrNone(s), r.Intn(2) == 0, o.b, keep)
	case 5:
		what = "AnyForEach " + selName(idx, s)
		err = tb.AnyForEach(ctx, idx, selOrNone(s), r.Intn(2) == 0, o.b, keep)
	case 6:
		q := &QSpec{Idx: idx, Sel: s, Reverse: r.Intn(2) == 0}
		what = "query " + q.String()
		_, err = tb.Query(ctx, q, o.b)
	case 7:
		q := &QSpec{Idx: idx, Sel: s, Inter: []*QSpec{{Idx: idx, Sel: s}}}
		what = "query " + q.String()
		_, err = tb.Query(ctx, q, o.b)
	default:
		what = "Iter"
		if s == nil {
			return
		}
		it := tb.Iter(idx, *s, o.b)
		if it.First() {
			n++
		}
		err = it.Error()
		_ = it.Close()
	}
	c.Eval(1)
	c.Count("write-only-reads", 1)
	if err == nil {
		x.fail("%s through the write-only batch %s gives an answer (%d) instead of an error", what, o.name, n)
	}
}
