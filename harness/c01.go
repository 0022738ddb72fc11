package main

import (
	"fmt"

	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C01", Level: "exploration", Quick: 1600, Thorough: 6000, Run: runC01,
		Rule: "random histories of insert/update/upsert/delete (with repeated, existing and missing rows, calls over the internal chunk size, batches of their own) on a table with random key kind, serializer, indexes, prefetch and filter, with flush, compaction and reopen in between, every read compared with a map; a case is non-trivial when at least 10 calls changed the table",
	})
}

func randTDef(c *Case, id byte, nidx int) *TDef {
	r := c.R
	d := &TDef{ID: id, PK: PKKind(r.Intn(int(pkKinds))), Ser: SerKind(r.Intn(int(serKinds))), Prefetch: pick(r, []int{0, 1, 2, 3, 5, 100})}
	var iid []byte
	for i := 0; i < nidx; i++ {
		iid = append(iid, []byte{1, 2, 7, 100, 254, 255}[i%6])
	}
	d.Idx = pickIndexes(r, iid...)
	return d
}

// addFilter attaches a bloom filter, which must have been filled from the rows
// before a table is used again.
func (d *TDef) addFilter(c *Case) {
	d.Filter = &bond.FilterInitializable{Filter: newBloom(c.R)}
}

func (d *TDef) initFilter(c *Case, e *Env, t Tab) {
	if fi, ok := d.Filter.(*bond.FilterInitializable); ok {
		if err := fi.Initialize(bg, e.db, []bond.TableScanner[any]{t.AnyScanner()}); err != nil {
			c.Fail("filter-init", "initializing the filter failed: %v", err)
		}
	}
}

func runC01(c *Case) {
	r := c.R
	def := randTDef(c, pick(r, []byte{1, 2, 3, 42, 254, 255}), r.Intn(3))
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR), MemTable: pick(r, []int{64 << 10, 1 << 20})})
	filtered := r.Intn(3) == 0
	if filtered {
		def.addFilter(c)
	}
	t := newTab(e.db, def)
	def.initFilter(c, e, t)
	h := &Hist{c: c, e: e, t: t, m: newModel(def), r: r, batch: true,
		p: &Profile{IDs: idPool(r, 6+r.Intn(30)), Small: r.Intn(2) == 0, Big: true, Zero: pick(r, []int{10, 35, 70})}}
	steps := 60
	if r.Intn(15) == 0 {
		h.bulk, steps = 25, 12
	}
	c.Logf("table %d pk=%v ser=%v filter=%v prefetch=%d", def.ID, def.PK, def.Ser, filtered, def.Prefetch)
	for i := 0; i < steps; i++ {
		h.step(c.Fail)
		switch r.Intn(40) {
		case 0:
			e.flush()
			c.Count("flush", 1)
			c.Logf("flush")
		case 1:
			e.compact()
			c.Count("compact", 1)
			c.Logf("compact")
		case 2:
			e.reopen()
			c.Count("reopen", 1)
			c.Logf("reopen")
			if filtered {
				def.addFilter(c)
			}
			h.t = newTab(e.db, def)
			if filtered && r.Intn(2) == 0 {
				c.Logf("filter not initialized yet")
			} else {
				def.initFilter(c, e, h.t)
			}
		}
		h.checkPoints(6)
		if i%5 == 4 || i == steps-1 || h.bulk > 0 {
			h.checkScan()
		}
	}
	if h.calls >= 10 {
		c.Nontrivial()
	}
}

// checkPoints compares point reads with the model.
func (h *Hist) checkPoints(n int) {
	c, r := h.c, h.r
	var pts []Row
	for i := 0; i < n; i++ {
		id := pick(r, h.p.IDs)
		switch r.Intn(8) {
		case 0:
			id = edgeU64(r)
		case 1:
			if h.fresh > 0 {
				id = h.fresh - uint64(r.Intn(11000))
			}
		}
		if r.Intn(2) == 0 {
			pts = append(pts, Row{ID: id})
		} else {
			pts = append(pts, h.p.rowID(r, id))
		}
	}
	c.Eval(n)
	for _, p := range pts {
		want, ok := h.m.Rows[p.ID]
		if got := h.t.Exist(p, nil); got != ok {
			c.Fail("exist", "Exist(%d) = %v, the map says %v", p.ID, got, ok)
		}
		got, err := h.t.GetPoint(bg, p, nil)
		h.point("GetPoint", p, got, err, want, ok)
		rs, oks, err := h.t.Get(bg, Sel{Kind: selPoint, Rows: []Row{p}}, nil)
		if err == nil && len(rs) != 1 {
			c.Fail("get", "Get(point %d) returned %d rows", p.ID, len(rs))
		}
		if err == nil {
			if !oks[0] && !rs[0].Equal(want) {
				c.Fail("get", "Get(point %d) returned no row", p.ID)
			}
			got = rs[0]
		}
		h.point("Get(point)", p, got, err, want, ok)
	}
	if h.bulk > 0 && r.Intn(4) == 0 {
		// as many at once as there are buffers, and more
		var bulk []uint64
		for id := range h.m.Rows {
			bulk = append(bulk, id)
		}
		sortU64(bulk)
		for n := pick(r, []int{4990, 5010, 10005, 12000}); len(pts) < n; {
			if len(bulk) == 0 || r.Intn(4) == 0 {
				pts = append(pts, Row{ID: r.Uint64()})
			} else {
				pts = append(pts, Row{ID: pick(r, bulk)})
			}
		}
		c.Count("bulk-get", 1)
	}
	rs, oks, err := h.t.Get(bg, Sel{Kind: selPoints, Rows: pts}, nil)
	if err != nil {
		c.Fail("get-points", "Get(points %v) failed: %v", ids(pts), err)
	}
	if len(rs) != len(pts) {
		c.Fail("get-points", "Get of %d points returned %d rows", len(pts), len(rs))
	}
	for i, p := range pts {
		want, ok := h.m.Rows[p.ID]
		if !ok && oks[i] {
			c.Fail("get-points", "Get(points) found %v for the absent row %d", rs[i], p.ID)
		}
		if ok && !rs[i].Equal(want) {
			c.Fail("get-points", "Get(points) at %d: got %v (present %v), want %v", i, rs[i], oks[i], want)
		}
	}
}

func (h *Hist) point(what string, p, got Row, err error, want Row, ok bool) {
	switch {
	case err != nil && !isNotFound(err):
		h.c.Fail("get", "%s(%d) failed: %v", what, p.ID, err)
	case (err == nil) != ok:
		h.c.Fail("get", "%s(%d) returned %v, the map has it: %v", what, p.ID, err, ok)
	case ok && !got.Equal(want):
		h.c.Fail("get", "%s(%d) = %v, want %v", what, p.ID, got, want)
	}
}

// checkScan compares full reads with the model.
func (h *Hist) checkScan() {
	c := h.c
	want := h.m.Sorted()
	got, err := h.t.Scan(bg, false, nil)
	if err != nil {
		c.Fail("scan", "Scan failed: %v", err)
	}
	if d := rowsDiff(got, want); d != "" {
		c.Fail("scan", "Scan: %s", d)
	}
	if h.r.Intn(3) == 0 {
		rev := make([]Row, len(want))
		for i := range want {
			rev[len(want)-1-i] = want[i]
		}
		got, err = h.t.Scan(bg, true, nil)
		if err != nil {
			c.Fail("scan", "reverse Scan failed: %v", err)
		}
		if d := rowsDiff(got, rev); d != "" {
			c.Fail("scan", "reverse Scan: %s", d)
		}
		got, err = h.t.Query(bg, &QSpec{}, nil)
		if err != nil {
			c.Fail("scan", "Query failed: %v", err)
		}
		if d := rowsDiff(got, want); d != "" {
			c.Fail("scan", "plain Query: %s", d)
		}
	}
	if d, _ := h.e.keySpaceDiff(h.m); d != "" {
		c.Fail("key-space", "%s", d)
	}
	c.Count("scans", 1)
	c.Eval(1)
	c.Distinct(fmt.Sprint(h.m.Def.Ser, h.m.Def.PK, len(want), hashString(fmt.Sprint(want))))
}
