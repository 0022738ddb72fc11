package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"
)

// part is a closed interval of keys of one index.
type part struct{ lo, hi []byte }

func (p part) has(k []byte) bool {
	return bytes.Compare(p.lo, k) <= 0 && bytes.Compare(k, p.hi) <= 0
}

func (m *Model) posKey(idx byte, r *Row) []byte {
	if idx == 0 {
		return m.Def.dataKey(r)
	}
	return m.Def.idxKey(m.Def.idx(idx), r)
}

// parts is the meaning of a selector in terms of index positions. nil: all.
func (m *Model) parts(idx byte, s *Sel) []part {
	ff := bytes.Repeat([]byte{0xff}, 8)
	if s == nil || s.None {
		if idx != 0 {
			panic("no selector for a secondary index")
		}
		return []part{{[]byte{m.Def.ID, 0}, append([]byte{m.Def.ID, 0}, ff...)}}
	}
	var out []part
	switch s.Kind {
	case selPoint, selPoints:
		for i := range s.Rows {
			p := &s.Rows[i]
			k := m.posKey(idx, p)
			switch {
			case idx != 0:
				d := m.Def.idx(idx)
				pre := append([]byte{m.Def.ID, idx}, beN(uint64(len(d.key(p))), 4)...)
				out = append(out, part{k, append(append(pre, d.key(p)...), ff...)})
			case s.Kind == selPoint:
				out = append(out, part{k, append([]byte{m.Def.ID, 0}, ff...)})
			default:
				out = append(out, part{k, k})
			}
		}
	default:
		for i := 0; i+1 < len(s.Rows); i += 2 {
			out = append(out, part{m.posKey(idx, &s.Rows[i]), m.posKey(idx, &s.Rows[i+1])})
		}
	}
	return out
}

func overlap(ps []part) bool {
	var qs []part
	for _, p := range ps {
		if bytes.Compare(p.lo, p.hi) <= 0 {
			qs = append(qs, p)
		}
	}
	sort.Slice(qs, func(i, j int) bool { return bytes.Compare(qs[i].lo, qs[j].lo) < 0 })
	for i := 1; i < len(qs); i++ {
		if bytes.Compare(qs[i].lo, qs[i-1].hi) <= 0 {
			return true
		}
	}
	return false
}

func (m *Model) ents(idx byte) []mEntry {
	if idx == 0 {
		return m.rawEntries(nil)
	}
	return m.rawEntries(m.Def.idx(idx))
}

// selEntries lists the selected entries in order.
func (m *Model) selEntries(idx byte, s *Sel, rev bool) []mEntry {
	es := m.ents(idx)
	var out []mEntry
	for _, p := range m.parts(idx, s) {
		for _, e := range es {
			if p.has(e.key) {
				out = append(out, e)
			}
		}
	}
	if rev {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func entRows(es []mEntry) []Row {
	out := make([]Row, len(es))
	for i := range es {
		out[i] = es[i].row
	}
	return out
}

// afterEntries lists the selected entries following a row. ok is false when
// the meaning is not specified.
func (m *Model) afterEntries(idx byte, s *Sel, rev bool, a *Row) (out []mEntry, ok bool) {
	ps := m.parts(idx, s)
	ka := m.posKey(idx, a)
	follows := func(k []byte) bool {
		if rev {
			return bytes.Compare(k, ka) < 0
		}
		return bytes.Compare(k, ka) > 0
	}
	at := -1
	for i, p := range ps {
		if p.has(ka) {
			at = i
		}
	}
	if len(ps) == 1 {
		at = 0
	} else if at < 0 || overlap(ps) {
		return nil, false
	}
	es := m.ents(idx)
	n := len(ps)
	for x := 0; x < n; x++ {
		i := x
		if rev {
			i = n - 1 - x
		}
		if !rev && i < at || rev && i > at {
			continue
		}
		var o []mEntry
		for _, e := range es {
			if ps[i].has(e.key) && (i != at || follows(e.key)) {
				o = append(o, e)
			}
		}
		if rev {
			for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
				o[i], o[j] = o[j], o[i]
			}
		}
		out = append(out, o...)
	}
	return out, true
}

// Eval is the meaning of a query.
//
//	refuse: it must be refused
//	ok:     false when its meaning is not specified
//	full:   the filtered rows before offset and limit, for orders with ties
func (m *Model) Eval(q *QSpec) (rows []Row, full []Row, refuse, ok bool) {
	var es []mEntry
	sorted := q.Less != nil
	if len(q.Inter) == 0 {
		if q.After != nil && !sorted {
			var sp bool
			if es, sp = m.afterEntries(q.Idx, q.Sel, q.Reverse, q.After); !sp {
				return nil, nil, false, false
			}
		} else {
			es = m.selEntries(q.Idx, q.Sel, q.Reverse)
		}
		if q.After != nil && sorted && overlap(m.parts(q.Idx, q.Sel)) {
			return nil, nil, false, false
		}
	} else {
		sets := []map[uint64]bool{}
		for _, x := range append([]*QSpec{q}, q.Inter...) {
			if x != q && (x.Filter != nil || x.Less != nil || x.After != nil || x.Offset != 0 || x.Limit != 0 || x.Reverse || len(x.Inter) > 0) {
				return nil, nil, true, true
			}
			s := map[uint64]bool{}
			for _, e := range m.selEntries(x.Idx, x.Sel, false) {
				s[e.row.ID] = true
			}
			sets = append(sets, s)
		}
		var ka []byte
		if q.After != nil {
			ka = m.posKey(0, q.After)
		}
		for _, e := range m.ents(0) {
			in := true
			for _, s := range sets {
				in = in && s[e.row.ID]
			}
			if in && ka != nil && !sorted {
				c := bytes.Compare(e.key, ka)
				in = c > 0 && !q.Reverse || c < 0 && q.Reverse
			}
			if in {
				es = append(es, e)
			}
		}
		if q.Reverse {
			for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
				es[i], es[j] = es[j], es[i]
			}
		}
	}
	for _, e := range es {
		if q.Filter == nil || q.Filter(e.row) {
			rows = append(rows, e.row)
		}
	}
	if sorted {
		rows = append([]Row{}, rows...)
		sort.SliceStable(rows, func(i, j int) bool { return q.Less(rows[i], rows[j]) })
		if q.After != nil {
			at := -1
			for i := range rows {
				if rows[i].ID == q.After.ID {
					at = i + 1
				}
			}
			if at < 0 {
				at = sort.Search(len(rows), func(i int) bool { return q.Less(*q.After, rows[i]) })
			}
			rows = rows[at:]
		}
	}
	full = rows
	if q.Offset >= uint64(len(rows)) {
		rows = nil
	} else {
		rows = rows[q.Offset:]
	}
	if q.Limit > 0 && q.Limit < uint64(len(rows)) {
		rows = rows[:q.Limit]
	}
	return rows, full, false, true
}

// qDiff compares the result of a query with its meaning.
func (m *Model) qDiff(q *QSpec, got []Row, err error) string {
	want, full, refuse, ok := m.Eval(q)
	if !ok {
		return ""
	}
	if refuse {
		if err == nil {
			return fmt.Sprintf("accepted with %d rows, it must be refused", len(got))
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("failed: %v", err)
	}
	if q.Less == nil || q.total() {
		return rowsDiff(got, want)
	}
	if len(got) != len(want) {
		return fmt.Sprintf("got %d rows, want %d", len(got), len(want))
	}
	left := map[uint64][]Row{}
	for _, r := range full {
		left[r.ID] = append(left[r.ID], r)
	}
	for i := range got {
		if q.Less(got[i], want[i]) || q.Less(want[i], got[i]) {
			return fmt.Sprintf("row %d of %d: got %v, want one equal in order to %v", i, len(got), got[i], want[i])
		}
		l := left[got[i].ID]
		if len(l) == 0 {
			return fmt.Sprintf("row %d of %d: %v is not among the rows left", i, len(got), got[i])
		}
		if !l[0].Equal(got[i]) {
			return fmt.Sprintf("row %d of %d: got %v, stored is %v", i, len(got), got[i], l[0])
		}
		left[got[i].ID] = l[1:]
	}
	return ""
}

func (q *QSpec) total() bool { return len(q.LName) > 0 && q.LName[0] == '=' }

// ---- generators ----

type namedFilter struct {
	name string
	f    func(r Row) bool
}

var filters = []namedFilter{
	{"on", func(r Row) bool { return r.On }},
	{"A-even", func(r Row) bool { return r.A%2 == 0 }},
	{"B>0", func(r Row) bool { return r.B > 0 }},
	{"none", func(r Row) bool { return false }},
	{"all", func(r Row) bool { return true }},
	{"opt", func(r Row) bool { return r.Opt != nil }},
	{"id%3", func(r Row) bool { return r.ID%3 != 0 }},
}

type namedLess struct {
	name string
	f    func(a, b Row) bool
}

var lesses = []namedLess{ // "=": total order
	{"=B,id", func(a, b Row) bool { return a.B < b.B || a.B == b.B && a.ID < b.ID }},
	{"=B-desc,id", func(a, b Row) bool { return a.B > b.B || a.B == b.B && a.ID < b.ID }},
	{"=str,id-desc", func(a, b Row) bool { return a.Str < b.Str || a.Str == b.Str && a.ID > b.ID }},
	{"=id-desc", func(a, b Row) bool { return a.ID > b.ID }},
	{"=A,C,id", func(a, b Row) bool {
		if a.A != b.A {
			return a.A < b.A
		}
		if a.C != b.C {
			return a.C < b.C
		}
		return a.ID < b.ID
	}},
	{"A", func(a, b Row) bool { return a.A < b.A }},
	{"U-desc", func(a, b Row) bool { return a.U > b.U }},
	{"none", func(a, b Row) bool { return false }},
}

func extremeRow(max bool) Row {
	if max {
		return Row{ID: math.MaxUint64, A: math.MaxUint32, B: math.MaxInt64, C: math.MaxUint16, U: math.MaxUint8, N: math.MaxInt32, H: math.MaxInt16, Fix: []byte{255, 255, 255, 255}, Tags: manyTags(), Opt: i64p(math.MaxInt64), On: true}
	}
	return Row{ID: 0, A: 0, B: math.MinInt64, C: 0, U: 0, N: math.MinInt32, H: math.MinInt16, Fix: []byte{0, 0, 0, 0}, Opt: i64p(math.MinInt64)}
}

// selRow draws a row for a selector bound.
func (h *Hist) selRow() Row {
	r := h.r
	switch k := r.Intn(20); {
	case k < 9:
		if p := h.present(1); len(p) > 0 {
			x := p[0]
			switch r.Intn(5) {
			case 0:
				x.ID = pick(r, h.p.IDs)
			case 1:
				x.ID = edgeU64(r)
			case 2:
				x.ID = 0
			}
			return x
		}
		return h.p.row(r)
	case k < 11: // only the key fields of a live row, the rest zero
		if p := h.present(1); len(p) > 0 {
			x := p[0]
			return Row{A: x.A, C: x.C, H: x.H, N: x.N, U: x.U, Str: x.Str, Opt: x.Opt, Tags: x.Tags}
		}
		return Row{}
	case k < 15:
		return h.p.row(r)
	case k < 16:
		return Row{}
	case k < 18:
		e := extremeRow(r.Intn(2) == 0)
		if p := h.present(1); len(p) > 0 && r.Intn(2) == 0 {
			e.A, e.C, e.H = p[0].A, p[0].C, p[0].H
		}
		return e
	default:
		if p := h.present(1); len(p) > 0 {
			return h.p.mutate(r, p[0])
		}
		return h.p.row(r)
	}
}

// genSel draws a selector for an index; nil means none (primary only).
func (h *Hist) genSel(idx byte) *Sel {
	r := h.r
	if idx == 0 && r.Intn(4) == 0 {
		return nil
	}
	s := &Sel{Kind: SelKind(r.Intn(4))}
	if idx != 0 && h.m.Def.idx(idx).VarKey {
		s.Kind = SelKind(r.Intn(2))
	}
	more := 0
	if r.Intn(25) == 0 {
		more = r.Intn(40)
	}
	switch s.Kind {
	case selPoint:
		s.Rows = []Row{h.selRow()}
	case selPoints:
		for n := r.Intn(6) + more; n > 0; n-- {
			s.Rows = append(s.Rows, h.selRow())
		}
		if len(s.Rows) > 0 && r.Intn(6) == 0 {
			s.Rows = append(s.Rows, s.Rows[0])
		}
	case selRange:
		s.Rows = []Row{h.selRow(), h.selRow()}
	case selRanges:
		for n := r.Intn(5) + more; n > 0; n-- {
			s.Rows = append(s.Rows, h.selRow(), h.selRow())
		}
	}
	if s.Kind >= selRange && r.Intn(8) > 0 { // mostly in order
		for i := 0; i+1 < len(s.Rows); i += 2 {
			if bytes.Compare(h.m.posKey(idx, &s.Rows[i]), h.m.posKey(idx, &s.Rows[i+1])) > 0 {
				s.Rows[i], s.Rows[i+1] = s.Rows[i+1], s.Rows[i]
			}
		}
		if r.Intn(3) == 0 { // sometimes everything from the smallest to the largest
			s.Rows = []Row{extremeRow(false), extremeRow(true)}
		}
	}
	return s
}

func (h *Hist) genIdx() byte {
	if len(h.m.Def.Idx) == 0 || h.r.Intn(4) == 0 {
		return 0
	}
	return pick(h.r, h.m.Def.Idx).ID
}

func genCount(r *rand.Rand, n int) uint64 {
	switch r.Intn(12) {
	case 0:
		return math.MaxUint64
	case 1:
		return math.MaxUint64 - uint64(r.Intn(5))
	case 2:
		return math.MaxInt64 + uint64(r.Intn(3))
	case 3:
		if n == 0 {
			return 1
		}
		return uint64(n)
	case 4:
		return uint64(n + 1)
	default:
		return uint64(1 + r.Intn(n/2+4))
	}
}

func (h *Hist) genClauses(q *QSpec) {
	r := h.r
	if r.Intn(3) == 0 {
		f := pick(r, filters)
		q.Filter, q.FName = f.f, f.name
	}
	if r.Intn(4) == 0 {
		l := pick(r, lesses)
		q.Less, q.LName = l.f, l.name
	}
	q.Reverse = r.Intn(3) == 0
	q.Twice = r.Intn(8) == 0
	if r.Intn(3) == 0 && (q.Less == nil || q.total()) {
		var a Row
		if rows, _, _, ok := h.m.Eval(&QSpec{Idx: q.Idx, Sel: q.Sel, Inter: q.Inter, Filter: q.Filter}); ok && len(rows) > 0 && r.Intn(3) > 0 {
			a = pick(r, rows).Clone()
		} else {
			a = h.selRow()
		}
		q.After = &a
	}
	if r.Intn(4) == 0 {
		q.Offset = genCount(r, len(h.m.Rows))
	}
	if r.Intn(3) == 0 {
		q.Limit = genCount(r, len(h.m.Rows))
	}
}

func (h *Hist) genQuery() *QSpec {
	q := &QSpec{Idx: h.genIdx()}
	q.Sel = h.genSel(q.Idx)
	h.genClauses(q)
	return q
}

func (h *Hist) genIntersect() *QSpec {
	r := h.r
	wide := func() *QSpec {
		q := &QSpec{Idx: h.genIdx()}
		q.Sel = h.genSel(q.Idx)
		if q.Idx != 0 && !h.m.Def.idx(q.Idx).VarKey && r.Intn(3) > 0 {
			q.Sel = &Sel{Kind: selRange, Rows: []Row{extremeRow(false), extremeRow(true)}}
			if p := h.present(2); len(p) == 2 && r.Intn(2) == 0 {
				q.Sel.Rows[r.Intn(2)] = p[0]
			}
		}
		return q
	}
	q := wide()
	for n := 1 + r.Intn(3); n > 0; n-- {
		q.Inter = append(q.Inter, wide())
	}
	h.genClauses(q)
	return q
}

func i64p(v int64) *int64 { return &v }

func manyTags() map[string]string {
	m := map[string]string{}
	for i := 0; i < 30; i++ {
		m[fmt.Sprint(i)] = ""
	}
	return m
}
