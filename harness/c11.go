package main

import (
	"fmt"

	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C11", Level: "exploration", Quick: 6000, Thorough: 50000, Run: runC11,
		Rule: "random queries (plain and intersected, any index, selector, filter, direction, total order) walked page by page with random page sizes by after row and by offset, with and without writes between the pages (including deletes of the row the next page starts after); the concatenated pages are compared with the unpaged query, and with writes every row left unchanged must appear exactly once; non-trivial: a case with at least 3 walks of 2 pages or more",
	})
}

func runC11(c *Case) {
	r := c.R
	def := randTDef(c, pick(r, []byte{1, 8, 254, 255}), 1+r.Intn(5))
	n := 3 + r.Intn(30)
	if r.Intn(10) == 0 {
		n = 120 + r.Intn(150)
	}
	h := content(c, def, n)
	h.zeroRow()
	c.Logf("%s, %d rows", def.describe(), len(h.m.Rows))
	walks := 0
	for i := 0; i < 16; i++ {
		var q *QSpec
		if r.Intn(4) == 0 {
			q = h.genIntersect()
		} else {
			q = &QSpec{Idx: h.genIdx()}
			q.Sel = h.genSel(q.Idx)
			if r.Intn(2) == 0 && q.Idx != 0 && !def.idx(q.Idx).VarKey {
				q.Sel = &Sel{Kind: selRange, Rows: []Row{extremeRow(false), extremeRow(true)}}
			}
			h.genClauses(q)
		}
		q.After, q.Offset, q.Limit = nil, 0, 0
		if q.Less != nil && !q.total() {
			q.Less = nil
		}
		if len(q.Inter) == 0 && overlap(h.m.parts(q.Idx, q.Sel)) {
			c.Count("overlapping", 1)
			continue
		}
		writes := q.Less == nil && r.Intn(2) == 0
		if h.walk(q, pick(r, []uint64{1, 1, 2, 3, 5, 7, 100, uint64(1 + r.Intn(n)), uint64(max0(def.Prefetch))}), writes, !writes && r.Intn(3) == 0) >= 2 {
			walks++
		}
	}
	if walks >= 3 {
		c.Nontrivial()
	}
}

func max0(n int) int {
	if n < 1 {
		return 4
	}
	return n
}

func (h *Hist) walk(q *QSpec, size uint64, writes, byOffset bool) int {
	c, r := h.c, h.r
	all, err := h.t.Query(bg, q, nil)
	if err != nil {
		c.Fail("page", "query %v failed: %v", q, err)
	}
	what := fmt.Sprintf("paging (pages of %d, by offset %v, writes between %v) %v", size, byOffset, writes, q)
	start := h.m.Clone()
	touched := map[uint64]bool{}
	var got []Row
	p := *q
	p.Limit = size
	pages := 0
	limit := len(all)/int(size) + 2
	if writes {
		limit = 3*len(h.p.IDs) + 5 // a walk that writes ahead of itself goes on
	}
	for {
		page, err := h.t.Query(bg, &p, nil)
		if err != nil {
			c.Fail("page", "%s: page %d failed: %v", what, pages, err)
		}
		c.Eval(1)
		c.Count("pages", 1)
		if uint64(len(page)) > size {
			c.Fail("page", "%s: page %d has %d rows", what, pages, len(page))
		}
		got = append(got, page...)
		if len(page) == 0 {
			break
		}
		pages++
		if pages > limit {
			if writes {
				c.Count("cut", 1)
				return pages
			}
			c.Fail("page", "%s: does not end, %d pages for %d rows", what, pages, len(all))
		}
		last := page[len(page)-1]
		if byOffset {
			p.Offset += uint64(len(page))
		} else {
			a := last.Clone()
			p.After = &a
		}
		if writes {
			for k := r.Intn(3); k > 0; k-- {
				h.betweenPages(last, touched)
			}
		}
	}
	if writes {
		c.Count("walks-with-writes", 1)
		times := map[uint64]int{}
		for _, x := range got {
			times[x.ID]++
		}
		selected := map[uint64]bool{}
		for _, x := range all {
			selected[x.ID] = true
		}
		for id, x := range start.Rows {
			if touched[id] || !selected[id] {
				continue
			}
			c.Count("unchanged-rows", 1)
			if times[id] != 1 {
				c.Fail("page-writes", "%s: row %v, unchanged throughout, is visited %d times", what, x, times[id])
			}
		}
	} else {
		c.Count("walks", 1)
		if d := rowsDiff(got, all); d != "" {
			c.Fail("page", "%s: the pages and the unpaged query differ: %s", what, d)
		}
	}
	c.Distinct(fmt.Sprint(h.m.Def.PK, q.Idx, q.FName, q.LName, q.Reverse, size, byOffset, writes, len(all), len(q.Inter)))
	return pages
}

// betweenPages writes or deletes a row other than the untouched ones.
func (h *Hist) betweenPages(last Row, touched map[uint64]bool) {
	c, r := h.c, h.r
	var rs []Row
	switch r.Intn(4) {
	case 0: // the very row the next page starts after
		if x, ok := h.m.Rows[last.ID]; ok {
			rs = []Row{x.Clone()}
		}
	case 1:
		rs = h.absent(1)
	default:
		rs = h.present(1)
	}
	if len(rs) == 0 {
		return
	}
	id := rs[0].ID
	_, exists := h.m.Rows[id]
	touched[id] = true
	var err error
	var what string
	switch {
	case !exists:
		what, err = "insert", h.t.Insert(bg, rs, nil)
		h.m.Put(rs)
	case r.Intn(2) == 0 && len(h.m.Rows) > 2:
		what, err = "delete", h.t.Delete(bg, rs, nil)
		h.m.Del(rs)
	default:
		rs[0] = h.p.mutate(r, rs[0])
		what, err = "update", h.t.Update(bg, rs, nil)
		h.m.Put(rs)
	}
	c.Must(err, what)
	c.Count(what+"-between", 1)
}

var _ bond.Batch
