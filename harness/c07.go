package main

import (
	"bytes"
	"fmt"

	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C07", Level: "exploration", Quick: 7000, Thorough: 60000, Run: runC07,
		Rule: "random table contents and random point, points, range and ranges selectors (live, random and extreme bounds, reversed, empty and repeated ones) read through scans, index scans, for-each scans, the type-erased scanner, ranged gets and iterators moved back and forth, compared with the entries the selector describes; non-trivial: at least 10 selections with rows",
	})
}

func selOrNone(s *Sel) Sel {
	if s == nil {
		return Sel{None: true}
	}
	return *s
}

func selName(idx byte, s *Sel) string {
	if s == nil {
		return fmt.Sprintf("index %d, all", idx)
	}
	return fmt.Sprintf("index %d, %v", idx, *s)
}

func keysDiff(got [][]byte, want []mEntry) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("got %d entries, want %d; first missing at %d: %s", len(got), len(want), i, showKey(want[i].key))
		case i >= len(want):
			return fmt.Sprintf("got %d entries, want %d; first extra at %d: %s", len(got), len(want), i, showKey(got[i]))
		case !bytes.Equal(got[i], want[i].key):
			return fmt.Sprintf("entry %d of %d/%d: got %s, want %s", i, len(got), len(want), showKey(got[i]), showKey(want[i].key))
		}
	}
	return ""
}

func runC07(c *Case) {
	r := c.R
	def := randTDef(c, pick(r, []byte{1, 2, 127, 254, 255}), 1+r.Intn(5))
	n := 3 + r.Intn(40)
	if r.Intn(10) == 0 {
		n = 150 + r.Intn(250)
	}
	h := content(c, def, n)
	h.zeroRow()
	c.Logf("%s, %d rows", def.describe(), len(h.m.Rows))
	hits := 0
	for i := 0; i < 40; i++ {
		idx := h.genIdx()
		s := h.genSel(idx)
		rev := r.Intn(2) == 0
		want := h.m.selEntries(idx, s, rev)
		if len(want) > 0 {
			hits++
			c.Count("with-rows", 1)
		}
		c.Count("selections", 1)
		c.Distinct(fmt.Sprint(idx, s == nil, rev, len(want), def.PK, hashString(selName(idx, s))))
		h.selReads(idx, s, rev, want, nil, r.Intn(6))
	}
	if hits >= 10 {
		c.Nontrivial()
	}
}

// selReads reads a selection in one of several ways (0..5) and compares it.
func (h *Hist) selReads(idx byte, s *Sel, rev bool, want []mEntry, b bond.Batch, way int) {
	c, r := h.c, h.r
	rows := entRows(want)
	what := fmt.Sprintf("(%s, reverse %v)", selName(idx, s), rev)
	check := func(name string, got []Row, err error) {
		if err != nil {
			c.Fail("scan", "%s %s failed: %v", name, what, err)
		}
		if d := rowsDiff(got, rows); d != "" {
			c.Fail("scan", "%s %s: %s", name, what, d)
		}
	}
	c.Eval(1)
	c.Count([]string{"index-scan", "for-each", "any-for-each", "iterator", "any-scan", "get"}[way], 1)
	switch way {
	case 0:
		if s == nil {
			got, err := h.t.Scan(bg, rev, b)
			check("Scan", got, err)
			return
		}
		got, err := h.t.ScanIndex(bg, idx, *s, rev, b)
		check("ScanIndex", got, err)
	case 1, 2:
		f, name := h.t.ForEach, "ScanIndexForEach"
		if way == 2 {
			f, name = h.t.AnyForEach, "TableAnyScanner"
		}
		var keys [][]byte
		var got []Row
		lazy := r.Intn(3)
		err := f(bg, idx, selOrNone(s), rev, b, func(k []byte, get func() (Row, error)) (bool, error) {
			keys = append(keys, append([]byte(nil), k...))
			if lazy == 0 {
				x, err := get()
				if err != nil {
					return false, err
				}
				got = append(got, x)
			}
			return true, nil
		})
		if err != nil {
			c.Fail("scan", "%s %s failed: %v", name, what, err)
		}
		if d := keysDiff(keys, want); d != "" {
			c.Fail("scan", "%s %s: %s", name, what, d)
		}
		if lazy == 0 {
			check(name, got, err)
		}
	case 3:
		h.iterate(idx, s, what, b)
	case 4:
		got, err := h.t.AnyScan(bg, idx, selOrNone(s), rev, b)
		check("TableAnyScanner scan", got, err)
	case 5:
		if idx != 0 || s == nil || s.Kind < selRange {
			h.selReads(idx, s, rev, want, b, 0)
			return
		}
		if rev {
			rows = entRows(h.m.selEntries(idx, s, false))
		}
		got, oks, err := h.t.Get(bg, *s, b)
		for _, ok := range oks {
			_ = ok
		}
		check("Get", got, err)
	}
}

// iterate walks an iterator forwards, backwards and to and fro.
func (h *Hist) iterate(idx byte, s *Sel, what string, b bond.Batch) {
	c, r := h.c, h.r
	if s == nil {
		s = &Sel{Kind: selPoint, Rows: []Row{{}}}
		if idx == 0 {
			s = &Sel{Kind: selRange, Rows: []Row{extremeRow(false), extremeRow(true)}}
		}
	}
	want := h.m.selEntries(idx, s, false)
	it := h.t.Iter(idx, *s, b)
	defer func() {
		if err := it.Close(); err != nil {
			c.Fail("iter", "closing an iterator %s failed: %v", what, err)
		}
	}()
	at := func(name string, pos int, valid bool) {
		if valid != it.Valid() {
			c.Fail("iter", "iterator %s: %s returned %v and Valid %v", what, name, valid, it.Valid())
		}
		if valid != (pos >= 0 && pos < len(want)) {
			c.Fail("iter", "iterator %s: %s is valid: %v at position %d of %d (error %v)", what, name, valid, pos, len(want), it.Error())
		}
		if !valid {
			return
		}
		if !bytes.Equal(it.Key(), want[pos].key) {
			c.Fail("iter", "iterator %s: %s gives %s, want entry %d of %d, %s", what, name, showKey(it.Key()), pos, len(want), showKey(want[pos].key))
		}
		if idx != 0 && len(it.Value()) != 0 {
			c.Fail("iter", "iterator %s: index entry %s has a value", what, showKey(it.Key()))
		}
	}
	rounds := 1 + r.Intn(2)
	for ; rounds > 0; rounds-- {
		switch r.Intn(3) {
		case 0:
			pos := 0
			for v := it.First(); ; v = it.Next() {
				at("First/Next", pos, v)
				if !v {
					break
				}
				pos++
			}
		case 1:
			pos := len(want) - 1
			for v := it.Last(); ; v = it.Prev() {
				at("Last/Prev", pos, v)
				if !v {
					break
				}
				pos--
			}
		default:
			if len(want) == 0 {
				at("First", 0, it.First())
				at("Last", -1, it.Last())
				continue
			}
			pos := 0
			if r.Intn(2) == 0 {
				at("First", pos, it.First())
			} else {
				pos = len(want) - 1
				at("Last", pos, it.Last())
			}
			for k := 0; k < 2*len(want) && k < 60; k++ {
				fwd := r.Intn(2) == 0
				if k > len(want)/2 && r.Intn(3) > 0 {
					fwd = pos < len(want)/2
				}
				if fwd && pos < len(want)-1 {
					pos++
					at("Next", pos, it.Next())
				} else if !fwd && pos > 0 {
					pos--
					at("Prev", pos, it.Prev())
				}
			}
		}
	}
	if len(want) > 0 && (s.Kind == selPoint || s.Kind == selRange) && r.Intn(2) == 0 {
		pos := r.Intn(len(want))
		at("SeekGE", pos, it.SeekGE(want[pos].key))
		at("SeekLT", pos-1, it.SeekLT(want[pos].key))
	}
}
