package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"

	"github.com/go-bond/bond"
)

// rop is one generated read operation with the result it must have.
type rop struct {
	way  string
	name string
	rows int // rows the correct result has
	seen int // entries any part of an intersection has
	tail int // entries of the last part of an intersection
	// run performs the operation and compares its result when it has one;
	// err is the operation's error, nil for an expected refusal
	run func(ctx context.Context, b bond.Batch) (diff string, err error)
}

// ropHook is told about every row or entry an operation hands out.
type ropHook func()

// genRead draws a read operation over the rows of the model.
func (h *Hist) genRead(onRow ropHook) rop {
	r, m := h.r, h.m
	if onRow == nil {
		onRow = func() {}
	}
	idx := h.genIdx()
	s := h.genSel(idx)
	rev := r.Intn(2) == 0
	switch way := r.Intn(12); way {
	case 0: // one row
		x := h.selRow()
		if p := h.present(1); len(p) > 0 && r.Intn(4) > 0 {
			x = p[0]
		}
		want, ok := m.Rows[x.ID]
		return rop{way: "get-point", name: fmt.Sprintf("GetPoint %d", x.ID), rows: b2i(ok), run: func(ctx context.Context, b bond.Batch) (string, error) {
			got, err := h.t.GetPoint(ctx, x, b)
			if !ok && errors.Is(err, bond.ErrNotFound) {
				return "", nil
			}
			if err != nil {
				return "", err
			}
			onRow()
			if !ok {
				return fmt.Sprintf("found %v, there is no such row", got), nil
			}
			if !got.Equal(want) {
				return fmt.Sprintf("got %v, want %v", got, want), nil
			}
			return "", nil
		}}
	case 1: // several rows
		var rs []Row
		for n := 1 + r.Intn(6); n > 0; n-- {
			rs = append(rs, h.selRow())
		}
		rs = append(rs, h.present(1+r.Intn(8))...)
		h.shuffle(rs)
		n := 0
		for _, x := range rs {
			if _, ok := m.Rows[x.ID]; ok {
				n++
			}
		}
		return rop{way: "get-points", name: "Get points " + ids(rs), rows: n, run: func(ctx context.Context, b bond.Batch) (string, error) {
			got, oks, err := h.t.Get(ctx, Sel{Kind: selPoints, Rows: rs}, b)
			if err != nil {
				return "", err
			}
			if len(got) != len(rs) {
				return fmt.Sprintf("got %d rows for %d points", len(got), len(rs)), nil
			}
			for i, x := range rs {
				want, ok := m.Rows[x.ID]
				if ok != oks[i] {
					return fmt.Sprintf("row %d found: %v, want %v", x.ID, oks[i], ok), nil
				}
				if ok && !got[i].Equal(want) {
					return fmt.Sprintf("got %v, want %v", got[i], want), nil
				}
			}
			return "", nil
		}}
	case 2: // ranges of rows
		var sel *Sel
		for sel == nil || sel.Kind < selRange {
			sel = h.genSel(0)
			if sel == nil || sel.Kind < selRange {
				sel = &Sel{Kind: selRange, Rows: []Row{extremeRow(false), extremeRow(true)}}
			}
		}
		want := entRows(m.selEntries(0, sel, false))
		return rop{way: "get-range", name: "Get " + sel.String(), rows: len(want), run: func(ctx context.Context, b bond.Batch) (string, error) {
			got, _, err := h.t.Get(ctx, *sel, b)
			if err != nil {
				return "", err
			}
			return rowsDiff(got, want), nil
		}}
	case 3, 4: // scans
		want := entRows(m.selEntries(idx, s, rev))
		any := r.Intn(2) == 0
		return rop{way: "scan", name: fmt.Sprintf("scan of %s (reverse %v, type-erased %v)", selName(idx, s), rev, any), rows: len(want), run: func(ctx context.Context, b bond.Batch) (string, error) {
			var got []Row
			var err error
			switch {
			case any:
				got, err = h.t.AnyScan(ctx, idx, selOrNone(s), rev, b)
			case s == nil:
				got, err = h.t.Scan(ctx, rev, b)
			default:
				got, err = h.t.ScanIndex(ctx, idx, *s, rev, b)
			}
			if err != nil {
				return "", err
			}
			return rowsDiff(got, want), nil
		}}
	case 5, 6: // for-each scans
		want := m.selEntries(idx, s, rev)
		f, name := h.t.ForEach, "for-each scan"
		if r.Intn(2) == 0 {
			f, name = h.t.AnyForEach, "type-erased for-each scan"
		}
		lazy := r.Intn(3)
		return rop{way: "for-each", name: fmt.Sprintf("%s of %s (reverse %v, rows taken %d)", name, selName(idx, s), rev, lazy), rows: len(want), run: func(ctx context.Context, b bond.Batch) (string, error) {
			n, diff := 0, ""
			err := f(ctx, idx, selOrNone(s), rev, b, func(k []byte, get func() (Row, error)) (bool, error) {
				onRow()
				if n >= len(want) {
					diff = "more entries than there are"
					return false, nil
				}
				w := want[n]
				if !bytes.Equal(k, w.key) {
					diff = fmt.Sprintf("entry %d is %s, want %s", n, showKey(k), showKey(w.key))
					return false, nil
				}
				n++
				if lazy == 2 || lazy == 1 && n%3 == 0 {
					x, err := get()
					if err != nil {
						return false, err
					}
					if !x.Equal(w.row) {
						diff = fmt.Sprintf("row %d is %v, want %v", n-1, x, w.row)
						return false, nil
					}
				}
				return true, nil
			})
			if diff == "" && err == nil && n != len(want) {
				diff = fmt.Sprintf("%d entries, want %d", n, len(want))
			}
			return diff, err
		}}
	case 7: // an iterator
		if s == nil {
			s = &Sel{Kind: selRange, Rows: []Row{extremeRow(false), extremeRow(true)}}
			if idx != 0 {
				s = &Sel{Kind: selPoint, Rows: []Row{{}}}
			}
		}
		want := m.selEntries(idx, s, rev)
		return rop{way: "iterator", name: fmt.Sprintf("iterator over %s (reverse %v)", selName(idx, s), rev), rows: len(want), run: func(ctx context.Context, b bond.Batch) (string, error) {
			it := h.t.Iter(idx, *s, b)
			n, diff := 0, ""
			first, next := it.First, it.Next
			if rev {
				first, next = it.Last, it.Prev
			}
			for v := first(); v; v = next() {
				if n >= len(want) || !bytes.Equal(it.Key(), want[n].key) {
					diff = fmt.Sprintf("entry %d of %d is %s", n, len(want), showKey(it.Key()))
					break
				}
				n++
			}
			err := it.Error()
			cerr := it.Close()
			if err == nil {
				err = cerr
			}
			if diff == "" && err == nil && n != len(want) {
				diff = fmt.Sprintf("%d entries, want %d", n, len(want))
			}
			return diff, err
		}}
	case 8, 9, 10: // queries
		q := h.genQuery()
		way := "query"
		if r.Intn(2) == 0 {
			way, q = "intersection", h.genIntersect()
		}
		want, _, refuse, ok := m.Eval(q)
		if refuse || !ok {
			return h.genRead(onRow)
		}
		seen := *q // the model has to call the filter itself
		if f := q.Filter; f != nil {
			seen.Filter = func(x Row) bool { onRow(); return f(x) }
		}
		return rop{way: way, name: "query " + q.String(), rows: len(want), seen: m.partEntries(q), run: func(ctx context.Context, b bond.Batch) (string, error) {
			got, err := h.t.Query(ctx, &seen, b)
			if err != nil {
				return "", err
			}
			return m.qDiff(q, got, nil), nil
		}}
	default: // the keys of an intersection
		q := h.genIntersect()
		p := &QSpec{Idx: q.Idx, Sel: q.Sel}
		for _, i := range q.Inter {
			if i.Sel != nil {
				p.Inter = append(p.Inter, i)
			}
		}
		if p.Sel == nil || len(p.Inter) == 0 {
			return h.genRead(onRow)
		}
		want, _, _, _ := m.Eval(p)
		last := p.Inter[len(p.Inter)-1]
		return rop{way: "intersect", seen: m.partEntries(p), tail: len(m.selEntries(last.Idx, last.Sel, false)), name: "Index.Intersect " + p.String(), rows: len(want), run: func(ctx context.Context, b bond.Batch) (string, error) {
			keys, err := h.t.NewIntersectKeys(ctx, p, b)
			if err != nil {
				return "", err
			}
			if len(keys) != len(want) {
				return fmt.Sprintf("%d keys, want %d", len(keys), len(want)), nil
			}
			for i := range want {
				if !bytes.Equal(m.Def.dataKey(&want[i]), keys[i]) {
					return fmt.Sprintf("key %d is %s", i, showKey(keys[i])), nil
				}
			}
			return "", nil
		}}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (m *Model) partEntries(q *QSpec) int {
	if len(q.Inter) == 0 {
		return 0
	}
	n := len(m.selEntries(q.Idx, q.Sel, false))
	for _, i := range q.Inter {
		n += len(m.selEntries(i.Idx, i.Sel, false))
	}
	return n
}
