package main

import (
	"bytes"
	"context"
	"fmt"

	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C10", Level: "exploration", Quick: 5000, Thorough: 60000, Run: runC10,
		Rule: "random table contents, with and without pending writes in a batch, and random intersections of 2-4 selections over primary and secondary indexes with random clauses, compared with the rows lying in every selected set; intersected queries with clauses they cannot honour must be refused; non-trivial: at least 5 intersections with rows",
	})
}

// pending opens a batch with a few writes in it and returns the history that
// writes to it and whose model is the database overlaid with the batch.
func (h *Hist) pending(steps int) (*Hist, bond.Batch) {
	b := h.e.db.Batch(bond.BatchTypeReadWrite)
	o := *h
	o.m = h.m.Clone()
	o.t = &batchTab{Tab: h.t, b: b}
	o.noRef, o.batch = true, false
	for i := 0; i < steps; i++ {
		o.step(func(key, f string, a ...any) { h.c.Harness(f, a...) })
	}
	return &o, b
}

func runC10(c *Case) {
	r := c.R
	def := randTDef(c, pick(r, []byte{1, 5, 254, 255}), 2+r.Intn(5))
	n := 4 + r.Intn(40)
	if r.Intn(10) == 0 {
		n = 150 + r.Intn(150)
	}
	h := content(c, def, n)
	h.zeroRow()
	if r.Intn(3) == 0 {
		// the filter may know more keys than there are rows, never fewer
		def.addFilter(c)
		h.t = newTab(h.e.db, def)
		def.initFilter(c, h.e, h.t)
	}
	c.Logf("%s, %d rows", def.describe(), len(h.m.Rows))
	var b bond.Batch
	q := h
	if r.Intn(2) == 0 {
		q, b = h.pending(1 + r.Intn(6))
		defer b.Close()
		c.Count("with-batch", 1)
	}
	t := h.t
	hits := 0
	for i := 0; i < 40; i++ {
		s := q.genIntersect()
		if r.Intn(6) == 0 {
			h.refused(t, q, s, b)
			continue
		}
		rows, _, _, _ := q.m.Eval(s)
		if len(rows) > 0 {
			hits++
			c.Count("with-rows", 1)
		}
		got, err := t.Query(bg, s, b)
		if d := q.m.qDiff(s, got, err); d != "" {
			c.Fail("intersect", "query %v (batch %v): %s", s, b != nil, d)
		}
		c.Count("intersections", 1)
		c.Eval(1)
		c.Distinct(fmt.Sprint(def.PK, len(s.Inter), s.Idx, s.FName, s.LName, s.Reverse, s.After != nil, len(rows)))
		if s.Sel != nil && r.Intn(4) == 0 {
			q.intersectKeys(t, s, b)
		}
	}
	if hits >= 5 {
		c.Nontrivial()
	}
}

// refused checks that clauses an intersected query does not support are refused.
func (h *Hist) refused(t Tab, q *Hist, s *QSpec, b bond.Batch) {
	r := h.r
	in := *pick(r, s.Inter)
	for i := range s.Inter {
		if r.Intn(2) == 0 {
			s.Inter[i] = &in
		}
	}
	s.Inter[r.Intn(len(s.Inter))] = &in
	row := q.selRow()
	switch r.Intn(7) {
	case 0:
		f := pick(r, filters)
		in.Filter, in.FName = f.f, f.name
	case 1:
		l := pick(r, lesses)
		in.Less, in.LName = l.f, l.name
	case 2:
		in.After = &row
	case 3:
		in.Offset = genCount(r, len(q.m.Rows))
	case 4:
		in.Limit = genCount(r, len(q.m.Rows))
	case 5:
		in.Reverse = true
	case 6:
		x := &QSpec{Idx: q.genIdx()}
		x.Sel = q.genSel(x.Idx)
		in.Inter = []*QSpec{x}
	}
	got, err := t.Query(bg, s, b)
	if err == nil {
		h.c.Fail("refuse", "query %v returned %d rows, the clauses of the intersected query must be refused", s, len(got))
	}
	h.c.Count("refused", 1)
	h.c.Eval(1)
}

func (h *Hist) intersectKeys(t Tab, s *QSpec, b bond.Batch) {
	p := &QSpec{Idx: s.Idx, Sel: s.Sel}
	for _, i := range s.Inter {
		if i.Sel == nil {
			return
		}
		p.Inter = append(p.Inter, i)
	}
	rows, _, _, _ := h.m.Eval(p)
	keys, err := t.NewIntersectKeys(bg, p, b)
	if err != nil {
		h.c.Fail("keys", "Index.Intersect %v failed: %v", p, err)
	}
	if len(keys) != len(rows) {
		h.c.Fail("keys", "Index.Intersect %v gives %d keys, want %d", p, len(keys), len(rows))
	}
	for i := range rows {
		if k := h.m.Def.dataKey(&rows[i]); !bytes.Equal(k, keys[i]) {
			h.c.Fail("keys", "Index.Intersect %v: key %d is %s, want %s", p, i, showKey(keys[i]), showKey(k))
		}
	}
	h.c.Count("keys", 1)
	h.c.Eval(1)
}

// batchTab routes the writes of a history into a batch.
type batchTab struct {
	Tab
	b       bond.Batch
	touched map[uint64]bool
}

func (x *batchTab) touch(rs []Row) []Row {
	if x.touched == nil {
		x.touched = map[uint64]bool{}
	}
	for _, r := range rs {
		x.touched[r.ID] = true
	}
	return rs
}

func (x *batchTab) Insert(ctx context.Context, rs []Row, _ bond.Batch) error {
	return x.Tab.Insert(ctx, x.touch(rs), x.b)
}
func (x *batchTab) Update(ctx context.Context, rs []Row, _ bond.Batch) error {
	return x.Tab.Update(ctx, x.touch(rs), x.b)
}
func (x *batchTab) Upsert(ctx context.Context, rs []Row, f func(o, n Row) Row, _ bond.Batch) error {
	return x.Tab.Upsert(ctx, x.touch(rs), f, x.b)
}
func (x *batchTab) UpsertMut(ctx context.Context, rs []Row, f func(o, n *Row), _ bond.Batch) error {
	return x.Tab.UpsertMut(ctx, x.touch(rs), f, x.b)
}
func (x *batchTab) Delete(ctx context.Context, rs []Row, _ bond.Batch) error {
	return x.Tab.Delete(ctx, x.touch(rs), x.b)
}
func (x *batchTab) UnsafeInsert(ctx context.Context, rs []Row, _ bond.Batch) error {
	return x.Tab.UnsafeInsert(ctx, x.touch(rs), x.b)
}
func (x *batchTab) UnsafeUpdate(ctx context.Context, rs, olds []Row, _ bond.Batch) error {
	return x.Tab.UnsafeUpdate(ctx, x.touch(rs), olds, x.b)
}
