package main

import (
	"fmt"
	"sort"

	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C02", Level: "exploration", Quick: 1600, Thorough: 5000, Run: runC02,
		Rule: "random histories of all write calls (direct, unsafe, through committed batches, large, refused, index entries made by hand) on tables with 1-6 indexes with key, order and filter functions; after every call the raw index key space is compared with the entries computed independently from the rows as stored; non-trivial: a history in which rows changed index keys or filter membership and at least 10 calls were made",
	})
}

func runC02(c *Case) {
	r := c.R
	def := randTDef(c, pick(r, []byte{1, 2, 9, 254, 255}), 1+r.Intn(6))
	if r.Intn(3) == 0 {
		def.addVarIndex(r)
	}
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR), MemTable: pick(r, []int{64 << 10, 1 << 20})})
	t := newTab(e.db, def)
	h := &Hist{c: c, e: e, t: t, m: newModel(def), r: r, batch: true, unsaf: true,
		p: &Profile{IDs: idPool(r, 5+r.Intn(20)), Small: r.Intn(3) > 0, Zero: pick(r, []int{20, 50, 80})}}
	steps := 60
	if r.Intn(15) == 0 {
		h.bulk, steps = 25, 10
	}
	names := ""
	for _, d := range def.Idx {
		names += fmt.Sprintf(" %d:%s", d.ID, d.Name)
	}
	c.Logf("table %d pk=%v ser=%v indexes%s", def.ID, def.PK, def.Ser, names)
	stored := newModel(def)
	refill := func() {
		rs, err := h.t.Scan(bg, false, nil)
		if err != nil {
			c.Fail("scan", "Scan failed: %v", err)
		}
		stored.Rows = map[uint64]Row{}
		stored.Put(rs)
		// what the next calls are made from is what is stored
		h.m.Rows = map[uint64]Row{}
		h.m.Put(rs)
	}
	for i := 0; i < steps; i++ {
		before := h.m.Clone()
		h.step(func(string, string, ...any) {})
		refill()
		if _, d := e.keySpaceDiff(stored); d != "" {
			c.Fail("index", "after %s: %s", c.lastLog(), d)
		}
		c.Eval(len(def.Idx))
		c.Count("index-compare", len(def.Idx))
		for id, o := range before.Rows {
			if n, ok := h.m.Rows[id]; ok && !n.Equal(o) {
				for _, d := range def.Idx {
					o, n := o, n
					if d.accepts(&o) != d.accepts(&n) {
						c.Count("filter-moves", 1)
					} else if d.accepts(&n) && string(def.idxKey(d, &o)) != string(def.idxKey(d, &n)) {
						c.Count("key-moves", 1)
					}
				}
			}
		}
		if i%6 == 5 {
			h.checkLookups(stored)
		}
		if r.Intn(4) == 0 {
			h.indexCalls()
		}
		switch r.Intn(50) {
		case 0:
			e.flush()
		case 1:
			e.compact()
		case 2:
			e.reopen()
			c.Logf("reopen")
			h.t = newTab(e.db, def)
		}
	}
	if h.calls >= 10 {
		c.Nontrivial()
	}
}

// indexCalls makes the entries of one index follow a row that comes, changes
// and goes, which no row of the table has anything to do with.
func (h *Hist) indexCalls() {
	c, r := h.c, h.r
	d := pick(r, h.m.Def.Idx)
	start := h.e.dumpAll()
	rows := []*Row{nil}
	x := h.absent(1)
	if len(x) == 0 {
		return
	}
	for i := 0; i < 1+r.Intn(3); i++ {
		n := x[0].Clone()
		if i > 0 {
			n = h.p.mutate(r, *rows[i])
		}
		rows = append(rows, &n)
	}
	rows = append(rows, nil)
	for i := 1; i < len(rows); i++ {
		buffs := make([][]byte, r.Intn(4))
		for j := range buffs {
			buffs[j] = make([]byte, 0, pick(r, []int{0, 3, 64, 1024}))
		}
		b := h.e.db.Batch(pick(r, []bond.BatchType{bond.BatchTypeReadWrite, bond.BatchTypeWriteOnly}))
		if err := h.t.OnIndex(d.ID, rows[i-1], rows[i], b, buffs); err != nil {
			c.Fail("index-call", "changing the entries of index %s from %v to %v failed: %v", d.Name, rows[i-1], rows[i], err)
		}
		c.Must(b.Commit(bond.Sync), "commit")
		_ = b.Close()
		want := append([]kv{}, start...)
		if n := rows[i]; n != nil && d.accepts(n) {
			want = append(want, kv{h.m.Def.idxKey(d, n), nil})
			sort.Slice(want, func(i, j int) bool { return string(want[i].k) < string(want[j].k) })
		}
		if df := diffKV(want, h.e.dumpAll()); df != "" {
			c.Fail("index-call", "after index %s was told that %v became %v (%d buffers): %s", d.Name, rows[i-1], rows[i], len(buffs), df)
		}
		c.Eval(1)
		c.Count("index-calls", 1)
	}
}

func (c *Case) lastLog() string {
	c.logm.Lock()
	defer c.logm.Unlock()
	if len(c.log) == 0 {
		return ""
	}
	return c.log[len(c.log)-1]
}

// checkLookups compares index lookups with the rows of a full scan.
func (h *Hist) checkLookups(stored *Model) {
	c := h.c
	rows := stored.Sorted()
	for _, d := range h.m.Def.Idx {
		probe := h.p.row(h.r)
		if len(rows) > 0 && h.r.Intn(4) > 0 {
			probe = pick(h.r, rows)
		}
		// the first of the matching rows selects them all
		matching := newModel(h.m.Def)
		for _, x := range rows {
			x := x
			if string(d.key(&x)) == string(d.key(&probe)) {
				matching.Put([]Row{x})
			}
		}
		if es := matching.entries(d); len(es) > 0 {
			probe = es[0]
		}
		got := map[string]int{}
		err := h.t.ForEach(bg, d.ID, Sel{Kind: selPoint, Rows: []Row{probe}}, false, nil,
			func(_ []byte, get func() (Row, error)) (bool, error) {
				x, err := get()
				if err != nil {
					return false, err
				}
				got[x.String()]++
				return true, nil
			})
		if err != nil {
			c.Fail("lookup", "index %d lookup failed: %v", d.ID, err)
		}
		want := 0
		for _, x := range rows {
			x := x
			if d.accepts(&x) && string(d.key(&x)) == string(d.key(&probe)) {
				want++
				if got[x.String()] != 1 {
					c.Fail("lookup", "index %d (%s) lookup like %v finds %v %d times", d.ID, d.Name, probe, x, got[x.String()])
				}
			}
		}
		if len(got) != want {
			c.Fail("lookup", "index %d (%s) lookup like %v gives %d rows, the scan %d", d.ID, d.Name, probe, len(got), want)
		}
		c.Count("lookups", 1)
	}
}
