package main

import (
	"fmt"

	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C06", Level: "exploration", Quick: 6000, Thorough: 60000, Run: runC06,
		Rule: "random table contents and random combinations of index, selector (live, random and extreme rows), filter, order, reverse, after, offset and limit (up to the largest values), prefetch sizes and derived queries, each result compared with the meaning of the clauses computed from the row set; a case is non-trivial when at least 5 of its queries selected rows",
	})
}

// content fills a fresh table through a few write calls.
func content(c *Case, def *TDef, n int) *Hist {
	r := c.R
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR), MemTable: pick(r, []int{64 << 10, 1 << 20})})
	h := &Hist{c: c, e: e, t: newTab(e.db, def), m: newModel(def), r: r,
		p: &Profile{IDs: idPool(r, n), Small: r.Intn(4) > 0, Zero: pick(r, []int{10, 30, 60})}}
	h.fill()
	return h
}

// zeroRow makes, in some cases, the row of ID 0 one whose fields are all zero.
// A get can't tell it from a missing one in a table of values.
func (h *Hist) zeroRow() {
	if h.r.Intn(3) > 0 {
		return
	}
	_, exists := h.m.Rows[0]
	if !exists {
		for _, id := range h.p.IDs {
			if id == 0 {
				exists = true
			}
		}
		if !exists {
			h.p.IDs = append(h.p.IDs, 0)
		}
		h.c.Must(h.t.Insert(bg, []Row{{}}, nil), "insert")
	} else {
		h.c.Must(h.t.Update(bg, []Row{{}}, nil), "update")
	}
	h.m.Put([]Row{{}})
	h.c.Count("zero-rows", 1)
}

func (h *Hist) fill() {
	r, c := h.r, h.c
	rs := h.absent(1 + r.Intn(len(h.p.IDs)))
	c.Must(h.t.Insert(bg, rs, nil), "insert")
	h.m.Put(rs)
	if r.Intn(3) == 0 {
		h.e.flush()
	}
	for k := r.Intn(4); k > 0; k-- {
		h.noRef = true
		h.step(func(key, f string, a ...any) { c.Harness(f, a...) })
	}
	if r.Intn(3) == 0 {
		h.e.compact()
	}
}

func (d *TDef) describe() string {
	s := fmt.Sprintf("table %d pk=%v ser=%v prefetch=%d", d.ID, d.PK, d.Ser, d.Prefetch)
	for _, i := range d.Idx {
		s += fmt.Sprintf(" %d:%s", i.ID, i.Name)
	}
	return s
}

func runC06(c *Case) {
	r := c.R
	def := randTDef(c, pick(r, []byte{1, 3, 254, 255}), 1+r.Intn(5))
	n := 3 + r.Intn(40)
	if r.Intn(10) == 0 {
		n = 150 + r.Intn(250)
	}
	h := content(c, def, n)
	h.zeroRow()
	c.Logf("%s, %d rows", def.describe(), len(h.m.Rows))
	hits := 0
	for i := 0; i < 40; i++ {
		q := h.genQuery()
		rows, _, _, ok := h.m.Eval(q)
		if ok && len(rows) > 0 {
			hits++
			c.Count("with-rows", 1)
		}
		if !ok {
			c.Count("unspecified", 1)
			continue
		}
		c.Count("queries", 1)
		c.Distinct(fmt.Sprint(q.Idx, q.Sel == nil || q.Sel.Kind == 0, q.FName, q.LName, q.Reverse, q.After != nil, q.Offset, q.Limit, len(rows)))
		if r.Intn(8) == 0 {
			h.derived(q)
			continue
		}
		got, err := h.t.Query(bg, q, nil)
		if d := h.m.qDiff(q, got, err); d != "" {
			c.Fail("query", "query %v: %s", q, d)
		}
		c.Eval(1)
	}
	if hits >= 5 {
		c.Nontrivial()
	}
}

// merge is the meaning of applying the clauses of e to q.
func (q *QSpec) merge(e *QSpec) *QSpec {
	o := *q
	if e.Sel != nil {
		o.Idx, o.Sel = e.Idx, e.Sel
	}
	if e.Filter != nil {
		o.Filter, o.FName = e.Filter, e.FName
	}
	if e.Less != nil {
		o.Less, o.LName = e.Less, e.LName
	}
	o.Reverse = q.Reverse != e.Reverse
	if e.After != nil {
		o.After = e.After
	}
	if e.Offset > 0 {
		o.Offset = e.Offset
	}
	if e.Limit > 0 {
		o.Limit = e.Limit
	}
	o.Inter = append(append([]*QSpec{}, q.Inter...), e.Inter...)
	return &o
}

// derived builds several queries from one and executes them all.
func (h *Hist) derived(q *QSpec) {
	c, r := h.c, h.r
	if r.Intn(3) == 0 {
		q = h.genIntersect()
	}
	var ext []*QSpec
	for n := 1 + r.Intn(4); n > 0; n-- {
		e := &QSpec{Idx: q.Idx, Sel: q.Sel}
		same := r.Intn(2) == 0
		if !same {
			e = &QSpec{Idx: h.genIdx()}
			e.Sel = h.genSel(e.Idx)
		}
		h.genClauses(e)
		if same {
			e.Sel = nil
		}
		if e.After != nil && e.Less == nil && q.Less != nil && !q.total() {
			e.After = nil
		}
		if r.Intn(3) == 0 {
			in := &QSpec{Idx: h.genIdx()}
			in.Sel = h.genSel(in.Idx)
			e.Inter = []*QSpec{in}
		}
		ext = append(ext, e)
	}
	var order []int
	for i := -1; i < len(ext); i++ {
		order = append(order, i, i)
	}
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	got, errs := h.t.Derived(bg, q, ext, order, nil)
	for k, i := range order {
		w := q
		if i >= 0 {
			w = q.merge(ext[i])
		}
		if w.After != nil && w.Less != nil && !w.total() {
			continue
		}
		if d := h.m.qDiff(w, got[k], errs[k]); d != "" {
			c.Fail("derived", "query %v (number %d derived from %v): %s", w, i, q, d)
		}
		c.Count("derived", 1)
		c.Eval(1)
	}
}

var _ bond.Batch
