package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"

	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C28", Level: "exploration", Quick: 4000, Thorough: 60000, Run: runC28,
		Rule: "for-each scans of random tables, selections, directions, prefetch sizes and batches whose functions take the lazy row by random patterns (never, always, several times, runs, one entry in many), write, scan again inside, stop or fail at any entry; calls, keys and rows compared with the entries selected; non-trivial: at least 30 scans with more entries than the prefetch size",
	})
}

var errC28 = errors.New("the function's own error")

// wrapped is an error that has to come back as it is.
type ownErr struct{ n int }

func (e *ownErr) Error() string { return fmt.Sprint("own error ", e.n) }

func runC28(c *Case) {
	r := c.R
	def := randTDef(c, pick(r, []byte{1, 2, 127, 254, 255}), 1+r.Intn(4))
	def.Prefetch = pick(r, []int{0, 1, 1, 2, 2, 3, 4, 5, 7, 10, 100})
	n := 3 + r.Intn(40)
	if r.Intn(10) == 0 {
		n = 150 + r.Intn(250)
	}
	h := content(c, def, n)
	c.Logf("%s, %d rows", def.describe(), len(h.m.Rows))
	size := def.Prefetch
	if size == 0 {
		size = 100
	}
	long := 0
	for i := 0; i < 50; i++ {
		q := h
		var b bond.Batch
		if r.Intn(4) == 0 {
			q, b = h.pending(1 + r.Intn(3))
		}
		idx := h.genIdx()
		s := h.genSel(idx)
		if r.Intn(3) == 0 && idx != 0 && !def.idx(idx).VarKey {
			s = &Sel{Kind: selRange, Rows: []Row{extremeRow(false), extremeRow(true)}}
		}
		rev := r.Intn(2) == 0
		want := q.m.selEntries(idx, s, rev)
		if len(want) > size || def.Prefetch > 50 && len(want) > 5 {
			long++
		}
		scanEach(c, q, b, idx, s, rev, want, 0)
		if b != nil {
			_ = b.Close()
		}
	}
	if long >= 30 || def.Prefetch == 0 && long >= 10 {
		c.Nontrivial()
	}
}

// scanEach makes one for-each scan with a random function and checks it.
func scanEach(c *Case, h *Hist, b bond.Batch, idx byte, s *Sel, rev bool, want []mEntry, depth int) {
	r := c.R
	f, name := h.t.ForEach, "for-each scan"
	if r.Intn(2) == 0 {
		f, name = h.t.AnyForEach, "type-erased for-each scan"
	}
	pat := r.Intn(7)
	k := 1 + r.Intn(6)
	run := false
	takes := func(i int) int {
		switch pat {
		case 0:
			return 0
		case 1:
			return 1
		case 2:
			return 2 + r.Intn(2)
		case 3: // some entry
			return b2i(i%k == k-1)
		case 4:
			return r.Intn(3)
		case 5: // runs
			if r.Intn(4) == 0 {
				run = !run
			}
			return b2i(run)
		default: // from some entry on
			return b2i(i >= k)
		}
	}
	stop := -1
	var ret error
	if len(want) > 0 && r.Intn(2) == 0 {
		stop = r.Intn(len(want))
		switch r.Intn(3) {
		case 0:
			ret = errC28
		case 1:
			ret = &ownErr{r.Intn(100)}
		}
	}
	cont := ret != nil && r.Intn(2) == 0 // with an error, whatever the other result is
	nest, write := -1, -1
	if depth < 2 && r.Intn(6) == 0 {
		nest = r.Intn(1 + len(want))
	}
	if b == nil && depth == 0 && r.Intn(8) == 0 {
		write = r.Intn(1 + len(want))
	}
	what := fmt.Sprintf("%s of %s (reverse %v, pattern %d/%d, batch %v, stops at %d with %v, depth %d, nested at %d, writes at %d, %d entries)",
		name, selName(idx, s), rev, pat, k, b != nil, stop, ret, depth, nest, write, len(want))
	c.Logf("%s", what)
	i, stopped := 0, false
	err := f(context.Background(), idx, selOrNone(s), rev, b, func(key []byte, get func() (Row, error)) (bool, error) {
		if stopped {
			c.Fail("stop", "%s: called again after it stopped the scan", what)
		}
		if i >= len(want) {
			c.Fail("calls", "%s: called for %s after all entries", what, showKey(key))
		}
		w := want[i]
		if !bytes.Equal(key, w.key) {
			c.Fail("calls", "%s: call %d has the key %s, want %s", what, i, showKey(key), showKey(w.key))
		}
		n := takes(i)
		for j := 0; j < n; j++ {
			if i == nest && j == 0 {
				nested(c, h, b, depth)
			}
			x, err := get()
			if err != nil {
				c.Fail("row", "%s: row %d: %v", what, i, err)
			}
			if !x.Equal(w.row) {
				c.Fail("row", "%s: the row of call %d (taken %d times) is %v, want %v", what, i, j+1, x, w.row)
			}
			if !bytes.Equal(key, w.key) {
				c.Fail("calls", "%s: the key of call %d became %s when its row was taken", what, i, showKey(key))
			}
			c.Count("rows", 1)
		}
		if i == nest {
			nested(c, h, b, depth)
			if !bytes.Equal(key, w.key) {
				c.Fail("calls", "%s: the key of call %d became %s during a scan inside it", what, i, showKey(key))
			}
			if x, err := get(); err != nil || !x.Equal(w.row) {
				c.Fail("row", "%s: the row of call %d after a scan inside is %v (%v), want %v", what, i, x, err, w.row)
			}
		}
		if i == write {
			old := h.m.Clone()
			for n := 1 + r.Intn(3); n > 0; n-- {
				h.step(func(key, f string, a ...any) { c.Harness(f, a...) })
			}
			_ = old
			c.Count("writes-inside", 1)
		}
		i++
		c.Count("calls", 1)
		if i-1 == stop {
			stopped = true
			return cont, ret
		}
		return true, nil
	})
	c.Eval(1)
	c.Distinct(fmt.Sprint(pat, k, stop >= 0, ret != nil, rev, b != nil, minI(len(want), 30), h.m.Def.Prefetch, idx == 0, name))
	if err != ret {
		c.Fail("error", "%s: returned %v", what, err)
	}
	if !stopped && i != len(want) {
		c.Fail("calls", "%s: %d calls for %d entries", what, i, len(want))
	}
}

// nested makes a scan, a query or a point read inside of a scan.
func nested(c *Case, h *Hist, b bond.Batch, depth int) {
	r := c.R
	c.Count("nested", 1)
	if r.Intn(3) == 0 {
		op := h.genRead(nil)
		if diff, err := op.run(bg, b); diff != "" || err != nil {
			c.Fail("nested", "%s inside of a scan: %s %v", op.name, diff, err)
		}
		return
	}
	idx := h.genIdx()
	s := h.genSel(idx)
	rev := r.Intn(2) == 0
	scanEach(c, h, b, idx, s, rev, h.m.selEntries(idx, s, rev), depth+1)
}
