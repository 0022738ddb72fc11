package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C16", Level: "exploration", Race: true, Quick: 420, Thorough: 10000, Run: runC16, HangSecs: 120,
		Rule: "writers owning disjoint rows, readers using every read interface, and administrative work (flush, compaction, dumps, index additions, filters, table look-ups, other tables) on one database at once with injected pauses; each read matched offline against the writers' recorded histories: a vector of write counts must exist that lies between call and return, respects the completion order of writes and of earlier reads, and explains every row, the order and the limits; non-trivial: reads overlapped writes and saw different states",
	})
}

type c16Ver struct {
	start, end int64
	m          *Model
	call       string
}

type c16Read struct {
	start, end int64
	name       string
	dec        bool // decomposes into the rows of the writers
	got        []Row
	want       func(m *Model) []Row
	owner      func(x Row) int // nil: by id
	min, max   []int           // found vectors
	bad        *failure        // what it ran into
}

// c16Prep is a query built once and executed by all readers.
type c16Prep struct {
	q    *QSpec
	exec func(context.Context, bond.Batch) ([]Row, error)
}

type c16 struct {
	c     *Case
	e     *Env
	def   *TDef // of the model
	t     Tab
	nw    int
	root  string
	clk   atomic.Int64
	vers  [][]c16Ver
	reads [][]*c16Read
	init  *Model
	noise int
	stop  atomic.Bool
	late  []*IDef
	prep  []c16Prep
	pks   map[string]uint64

	flushing bool // others flush and compact
	mu       sync.Mutex
	flushes  [][2]int64 // when flushes and compactions of the storage engine ran
}

// listen records the flushes and compactions.
func (x *c16) listen() *pebble.EventListener {
	at := map[int]int64{}
	begin := func(id int) {
		x.mu.Lock()
		at[id] = x.clk.Add(1)
		x.mu.Unlock()
	}
	end := func(id int) {
		x.mu.Lock()
		x.flushes = append(x.flushes, [2]int64{at[id], x.clk.Add(1)})
		x.mu.Unlock()
	}
	return &pebble.EventListener{
		FlushBegin:      func(i pebble.FlushInfo) { begin(i.JobID) },
		FlushEnd:        func(i pebble.FlushInfo) { end(i.JobID) },
		CompactionBegin: func(i pebble.CompactionInfo) { begin(i.JobID) },
		CompactionEnd:   func(i pebble.CompactionInfo) { end(i.JobID) },
	}
}

// unpublished tells whether the storage engine flushed or compacted between
// the start of a write that was under way during the read and the end of the
// read: it may then have dropped values which the write replaces before the
// write becomes visible, and the read sees older values instead (a defect of
// pebble that a program without bond shows as well).
func (x *c16) unpublished(rd *c16Read) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, l := range x.vers {
		for _, v := range l[1:] {
			if v.start > rd.end || v.end < rd.start {
				continue
			}
			for _, f := range x.flushes {
				if f[0] <= rd.end && f[1] >= v.start {
					return true
				}
			}
		}
	}
	return false
}

func (x *c16) fail(rd *c16Read, key, f string, a ...any) {
	if x.unpublished(rd) {
		key = "unpublished-flush"
	}
	x.c.Fail(key, f, a...)
}

func (x *c16) pause(r *rand.Rand) {
	switch x.noise {
	case 1:
		if r.Intn(2) == 0 {
			runtime.Gosched()
		}
	case 2:
		if r.Intn(6) == 0 {
			time.Sleep(time.Duration(r.Intn(60)) * time.Microsecond)
		}
	}
}

func runC16(c *Case) {
	r := c.R
	x := &c16{c: c, nw: 1 + r.Intn(4), noise: r.Intn(3)}
	cfg := EnvCfg{Ser: newSerializer(serCBOR)}
	if r.Intn(4) == 0 {
		cfg.MemTable = 64 << 10
	}
	x.clk.Store(1)
	x.flushing = r.Intn(3) == 0
	cfg.Listener = x.listen()
	x.e = newEnv(c, cfg)
	x.def = randTDef(c, pick(r, []byte{1, 2, 255}), 1+r.Intn(4))
	if r.Intn(2) == 0 {
		x.def.Filter = anyFilter(r)
	}
	x.def.pkFieldsOf()
	tdef := *x.def
	tdef.Idx = append([]*IDef(nil), x.def.Idx...)
	if r.Intn(2) == 0 {
		for i, d := range pickIndexes(r, 50, 51, 52) {
			if i <= r.Intn(3) {
				tdef.Idx = append(tdef.Idx, d)
				x.late = append(x.late, d)
			}
		}
	}
	var hn atomic.Int64
	if x.noise > 0 {
		tdef.Hook = func(string) error {
			switch n := hn.Add(1); {
			case x.noise == 1 && n%3 == 0:
				runtime.Gosched()
			case x.noise == 2 && n%17 == 0:
				time.Sleep(20 * time.Microsecond)
			}
			return nil
		}
	}
	x.t = newTabIdx(x.e.db, &tdef, false)
	var reg []byte
	for _, d := range x.def.Idx {
		reg = append(reg, d.ID)
	}
	c.Must(x.t.AddIndex(reg, false), "AddIndex")
	x.init = newModel(x.def)
	x.vers = make([][]c16Ver, x.nw)
	per := 4 + r.Intn(10)
	x.pks = map[string]uint64{}
	for i := 0; i < per*x.nw; i++ {
		x.pks[string(x.def.pkBytes(&Row{ID: uint64(i)}))] = uint64(i)
	}
	hs := make([]*Hist, x.nw)
	for w := 0; w < x.nw; w++ {
		m := newModel(x.def)
		p := &Profile{Small: true, Zero: 60}
		for i := 0; i < per; i++ {
			p.IDs = append(p.IDs, uint64(i*x.nw+w))
		}
		var rs []Row
		for _, id := range p.IDs {
			if r.Intn(2) == 0 {
				rs = append(rs, p.rowID(r, id))
			}
		}
		if len(rs) > 0 {
			c.Must(x.t.Insert(bg, rs, nil), "insert")
			m.Put(rs)
			x.init.Put(rs)
		}
		x.vers[w] = []c16Ver{{0, 0, m.Clone(), "initial"}}
		hs[w] = &Hist{c: c, e: x.e, t: x.t, m: m, p: p, batch: true, unsaf: true}
	}
	if r.Intn(3) == 0 {
		x.e.flush()
	}
	if fi, ok := x.def.Filter.(*bond.FilterInitializable); ok {
		c.Must(fi.Initialize(bg, x.e.db, []bond.TableScanner[any]{x.t.AnyScanner()}), "filter")
	}
	nr, na := 1+r.Intn(4), r.Intn(3)
	x.root = c.Dir()
	steps := 20 + r.Intn(60)
	x.reads = make([][]*c16Read, nr)
	c.Logf("%s, %d late indexes, filter %T, %d writers of %d rows, %d readers, %d others, noise %d", x.def.describe(), len(x.late), x.def.Filter, x.nw, per, nr, na, x.noise)
	for i := 0; i < 3; i++ {
		h := &Hist{c: c, e: x.e, t: x.t, m: x.init, r: r, p: hs[0].p}
		q := h.genQuery()
		if i > 0 || r.Intn(2) == 0 {
			q = h.genIntersect()
		}
		q = &QSpec{Idx: q.Idx, Sel: q.Sel, Inter: q.Inter}
		x.clauses(q, r)
		x.prep = append(x.prep, c16Prep{q, x.t.Prepare(q)})
	}
	var left atomic.Int64
	left.Store(int64(x.nw))
	c.Par(x.nw+nr+na, func(g int, r *rand.Rand) {
		switch {
		case g < x.nw:
			defer func() {
				if left.Add(-1) == 0 {
					x.stop.Store(true)
				}
			}()
			h := hs[g]
			h.r = r
			for i := 0; i < steps && !x.stop.Load(); i++ {
				s := x.clk.Add(1)
				h.step(func(key, f string, a ...any) {
					x.stop.Store(true)
					c.Fail(key, "with concurrent work: "+f, a...)
				})
				x.vers[g] = append(x.vers[g], c16Ver{s, x.clk.Add(1), h.m.Clone(), ""})
				x.pause(r)
			}
		case g < x.nw+nr:
			k := g - x.nw
			for n := 0; (!x.stop.Load() || n < 3) && n < 400; n++ {
				if rd := x.read(r); rd != nil {
					x.reads[k] = append(x.reads[k], rd)
				}
				x.pause(r)
			}
		default:
			x.admin(r, g-x.nw-nr)
		}
	})
	x.analyse()
	// what is left is what the writers left
	all := newModel(x.def)
	for _, v := range x.vers {
		for id, row := range v[len(v)-1].m.Rows {
			all.Rows[id] = row
		}
	}
	x.finish(all, &tdef)
}

// finish compares the key space, allowing the entries of indexes added late.
func (x *c16) finish(all *Model, tdef *TDef) {
	c := x.c
	must := all.ExpectKeys()
	lm := &Model{Def: tdef, Rows: all.Rows}
	may := lm.ExpectKeys()
	for _, e := range x.e.dumpTable(x.def.ID) {
		if !may[string(e.k)] {
			c.Fail("final", "left over after concurrent work: %s%s", showKey(e.k), x.e.owner(all, e.k))
		}
		delete(must, string(e.k))
	}
	for k := range must {
		c.Fail("final", "lost in concurrent work: %s%s", showKey([]byte(k)), x.e.owner(all, []byte(k)))
	}
	h := &Hist{c: c, e: x.e, t: x.t, m: all, r: c.R, p: &Profile{IDs: []uint64{0}}}
	h.checkScan()
}

// read makes one read without a batch and records it.
func (x *c16) read(r *rand.Rand) *c16Read {
	c := x.c
	h := &Hist{c: c, e: x.e, t: x.t, m: x.init, r: r, p: &Profile{Small: true, Zero: 60}}
	for i := 0; i < 30; i++ {
		h.p.IDs = append(h.p.IDs, uint64(i))
	}
	rd := &c16Read{dec: true}
	bad := func(key, f string, a ...any) {
		if rd.bad == nil {
			rd.bad = &failure{key, fmt.Sprintf(f, a...)}
		}
		x.stop.Store(true)
	}
	begin := func(f string, a ...any) {
		rd.name = fmt.Sprintf(f, a...)
		rd.start = x.clk.Add(1)
	}
	end := func(err error) {
		rd.end = x.clk.Add(1)
		if err != nil {
			bad("read-error", "%s failed because of concurrent work: %v", rd.name, err)
		}
	}
	sel := func(idx byte) *Sel {
		vk := idx != 0 && x.def.idx(idx).VarKey
		if !vk && r.Intn(2) == 0 {
			return &Sel{Kind: selRange, Rows: []Row{extremeRow(false), extremeRow(true)}}
		}
		return h.genSel(idx)
	}
	var err error
	switch k := r.Intn(18); k {
	case 12, 13: // iterators
		idx := h.genIdx()
		s := selOrNone(sel(idx))
		if s.None {
			s = Sel{Kind: selPoint, Rows: []Row{{}}}
		}
		rev := r.Intn(2) == 0
		begin("iterator (%d %v, reverse %v)", idx, s, rev)
		it := x.t.Iter(idx, s, nil)
		ok := false
		if rev {
			ok = it.Last()
		} else {
			ok = it.First()
		}
		for ok {
			rd.got = append(rd.got, x.keyRow(it.Key()))
			x.pause(r)
			if rev {
				ok = it.Prev()
			} else {
				ok = it.Next()
			}
		}
		err = it.Error()
		if e := it.Close(); err == nil {
			err = e
		}
		end(err)
		rd.want = func(m *Model) (out []Row) {
			for _, e := range m.selEntries(idx, &s, rev) {
				out = append(out, Row{ID: e.row.ID, Str: string(e.key)})
			}
			return
		}
	case 15, 16, 17: // a query shared with the other readers
		p := pick(r, x.prep)
		begin("shared query %v", p.q)
		rd.got, err = p.exec(bg, nil)
		end(err)
		rd.want = func(m *Model) []Row { rows, _, _, _ := m.Eval(p.q); return rows }
	case 14: // keys of an intersection
		q := h.genIntersect()
		q = &QSpec{Idx: q.Idx, Sel: q.Sel, Inter: q.Inter}
		if q.Sel == nil || len(q.Inter) == 0 {
			return nil
		}
		for _, i := range q.Inter {
			if i.Sel == nil {
				return nil
			}
		}
		begin("Intersect %v", q)
		keys, err := x.t.NewIntersectKeys(bg, q, nil)
		end(err)
		for _, k := range keys {
			rd.got = append(rd.got, x.keyRow(k))
		}
		rd.want = func(m *Model) (out []Row) {
			rows, _, _, _ := m.Eval(q)
			for i := range rows {
				out = append(out, Row{ID: rows[i].ID, Str: string(x.def.dataKey(&rows[i]))})
			}
			return
		}
	case 0: // queries of one selection
		q := &QSpec{Idx: h.genIdx()}
		q.Sel = sel(q.Idx)
		x.clauses(q, r)
		begin("query %v", q)
		rd.got, err = x.t.Query(bg, x.noisy(q, r), nil)
		end(err)
		rd.want = func(m *Model) []Row { rows, _, _, _ := m.Eval(q); return rows }
	case 1, 2: // intersections
		q := h.genIntersect()
		q = &QSpec{Idx: q.Idx, Sel: q.Sel, Inter: q.Inter}
		x.clauses(q, r)
		begin("intersection %v", q)
		rd.got, err = x.t.Query(bg, x.noisy(q, r), nil)
		end(err)
		rd.want = func(m *Model) []Row { rows, _, _, _ := m.Eval(q); return rows }
	case 3: // whole queries
		if x.nw > 1 {
			return nil
		}
		q := h.genQuery()
		if r.Intn(3) == 0 {
			q = h.genIntersect()
		}
		if q.Less != nil && !q.total() {
			q.Less, q.LName = nil, ""
		}
		if _, _, ref, ok := x.init.Eval(q); ref || !ok {
			return nil
		}
		rd.dec = false
		begin("query %v", q)
		rd.got, err = x.t.Query(bg, x.noisy(q, r), nil)
		end(err)
		rd.want = func(m *Model) []Row { rows, _, _, _ := m.Eval(q); return rows }
	case 4:
		rev := r.Intn(2) == 0
		begin("Scan(reverse %v)", rev)
		rd.got, err = x.t.Scan(bg, rev, nil)
		end(err)
		rd.want = func(m *Model) []Row { return entRows(m.selEntries(0, nil, rev)) }
	case 5, 6, 7, 8:
		idx := h.genIdx()
		s := selOrNone(sel(idx))
		sp := &s
		rev := r.Intn(2) == 0
		rd.want = func(m *Model) []Row { return entRows(m.selEntries(idx, sp, rev)) }
		switch k {
		case 5:
			if s.None {
				return nil
			}
			begin("ScanIndex(%d %v, reverse %v)", idx, s, rev)
			rd.got, err = x.t.ScanIndex(bg, idx, s, rev, nil)
			end(err)
		case 6:
			begin("any scan (%d %v, reverse %v)", idx, s, rev)
			rd.got, err = x.t.AnyScan(bg, idx, s, rev, nil)
			end(err)
		default:
			f := x.t.ForEach
			if k == 8 {
				f = x.t.AnyForEach
			}
			begin("for-each(%d %v, reverse %v)", idx, s, rev)
			err = f(bg, idx, s, rev, nil, func(key []byte, get func() (Row, error)) (bool, error) {
				x.pause(r)
				k := append([]byte(nil), key...)
				row, err := get()
				if err != nil {
					return false, err
				}
				var d *IDef
				if idx != 0 {
					d = x.def.idx(idx)
				}
				if w := x.entryKey(d, &row); !bytes.Equal(k, w) {
					bad("mixed", "%s: the entry %s came with the row %v", rd.name, showKey(k), row)
				}
				rd.got = append(rd.got, row)
				return true, nil
			})
			end(err)
		}
	case 9: // several rows by key
		var s Sel
		s.Kind = selPoints
		for n := 1 + r.Intn(12); n > 0; n-- {
			s.Rows = append(s.Rows, Row{ID: pick(r, h.p.IDs)})
		}
		begin("Get%v", s)
		rows, oks, err := x.t.Get(bg, s, nil)
		end(err)
		if len(oks) != len(s.Rows) {
			c.Fail("read", "%s returned %d rows", rd.name, len(oks))
		}
		// absent rows are marked
		for i := range oks {
			if !oks[i] {
				rows[i] = Row{ID: s.Rows[i].ID, Str: "absent"}
			} else if rows[i].ID != s.Rows[i].ID {
				c.Fail("read", "%s returned row %d at position %d", rd.name, rows[i].ID, i)
			}
		}
		rd.got = rows
		rd.want = func(m *Model) (out []Row) {
			for _, p := range s.Rows {
				if row, ok := m.Rows[p.ID]; ok {
					out = append(out, row)
				} else {
					out = append(out, Row{ID: p.ID, Str: "absent"})
				}
			}
			return
		}
	case 10:
		id := pick(r, h.p.IDs)
		begin("GetPoint(%d)", id)
		row, err := x.t.GetPoint(bg, Row{ID: id}, nil)
		if isNotFound(err) {
			end(nil)
		} else {
			end(err)
			rd.got = []Row{row}
		}
		rd.want = func(m *Model) []Row {
			if row, ok := m.Rows[id]; ok {
				return []Row{row}
			}
			return nil
		}
		rd.owner = func(Row) int { return int(id) % x.nw }
	case 11:
		id := pick(r, h.p.IDs)
		begin("Exist(%d)", id)
		ok := x.t.Exist(Row{ID: id}, nil)
		end(nil)
		if ok {
			rd.got = []Row{{ID: id}}
		}
		rd.want = func(m *Model) []Row {
			if _, ok := m.Rows[id]; ok {
				return []Row{{ID: id}}
			}
			return nil
		}
	}
	return rd
}

// keyRow names an entry by its key.
func (x *c16) keyRow(k []byte) Row {
	pk := ""
	if kl := int(binary.BigEndian.Uint32(k[2:6])); len(k) >= 10+kl {
		if ol := int(binary.BigEndian.Uint32(k[6+kl : 10+kl])); len(k) >= 10+kl+ol {
			pk = string(k[10+kl+ol:])
		}
	}
	id, ok := x.pks[pk]
	if !ok {
		x.stop.Store(true)
		x.c.Fail("mixed", "a read returned the key %s of no row", showKey(k))
	}
	return Row{ID: id, Str: string(k)}
}

func (x *c16) entryKey(d *IDef, row *Row) []byte {
	if d == nil {
		return x.def.dataKey(row)
	}
	return x.def.idxKey(d, row)
}

// clauses adds those that decompose.
func (x *c16) clauses(q *QSpec, r *rand.Rand) {
	if r.Intn(3) == 0 {
		f := pick(r, filters)
		q.Filter, q.FName = f.f, f.name
	}
	if r.Intn(4) == 0 {
		for q.Less == nil || !q.total() {
			l := pick(r, lesses)
			q.Less, q.LName = l.f, l.name
		}
	}
	q.Reverse = r.Intn(3) == 0
}

// noisy makes the functions of the query pause.
func (x *c16) noisy(q *QSpec, r *rand.Rand) *QSpec {
	if x.noise == 0 || q.Filter == nil {
		return q
	}
	o := *q
	f := q.Filter
	n := 0
	o.Filter = func(row Row) bool {
		if n++; n%2 == 0 {
			runtime.Gosched()
		}
		return f(row)
	}
	return &o
}

// admin does other work that must disturb nobody.
func (x *c16) admin(r *rand.Rand, k int) {
	c := x.c
	fatal := func(what string, err error) {
		if err != nil {
			x.stop.Store(true)
			c.Fail("other", "%s failed because of concurrent work: %v", what, err)
		}
	}
	od := &TDef{ID: byte(100 + k), PK: pkU64, Ser: SerKind(r.Intn(int(serKinds))), Idx: pickIndexes(r, 1, 2)}
	oh := &Hist{c: c, e: x.e, t: newTab(x.e.db, od), m: newModel(od), r: r, p: &Profile{IDs: []uint64{1, 2, 3, 4, 5, 6}, Small: true, Zero: 60}, batch: true, unsaf: true}
	added := 0
	for n := 0; !x.stop.Load() || n == 0; n++ {
		switch r.Intn(11) {
		case 0:
			if x.flushing {
				fatal("flush", x.e.db.Backend().Flush())
			}
		case 1:
			if x.flushing && r.Intn(4) == 0 {
				fatal("compaction", x.e.db.Backend().Compact([]byte{0, 0, 0, 0, 0, 0}, bytes.Repeat([]byte{0xff}, 16), true))
			}
		case 2:
			if r.Intn(6) == 0 {
				d := filepath.Join(x.root, fmt.Sprint("dump", k, n))
				c.Must(os.MkdirAll(filepath.Dir(d), 0o755), "mkdir")
				fatal("dump", x.e.db.Dump(bg, d, []bond.TableID{bond.TableID(x.def.ID)}, true))
				c.Count("dumps", 1)
			}
		case 3:
			if k == 0 && added < len(x.late) {
				fatal("AddIndex", x.t.AddIndex([]byte{x.late[added].ID}, false))
				added++
				c.Count("indexes-added", 1)
			}
		case 4, 9, 10:
			_ = x.t.Info().Indexes()
			for _, i := range x.t.Info().Indexes() {
				_ = i.Name()
			}
			_ = x.t.Info().Name()
			x.t.Touch()
		case 5:
			key := bond.NewUserKey(fmt.Sprint("user", k))
			v := []byte(fmt.Sprint(n))
			fatal("Set", x.e.db.Set(key, v, bond.NoSync))
			got, cl, err := x.e.db.Get(key)
			fatal("Get", err)
			if !bytes.Equal(got, v) {
				c.Fail("other", "user key holds %q, was set to %q", got, v)
			}
			_ = cl.Close()
		case 6:
			// the same row type and serializer in a table defined meanwhile
			d := &TDef{ID: byte(110 + k), PK: pkU64, Ser: od.Ser, Idx: pickIndexes(r, 1)}
			_ = newTab(x.e.db, d)
		default:
			oh.step(func(key, f string, a ...any) {
				x.stop.Store(true)
				c.Fail(key, "in another table with concurrent work: "+f, a...)
			})
			got, err := oh.t.Scan(bg, false, nil)
			fatal("scan", err)
			if d := rowsDiff(got, oh.m.Sorted()); d != "" {
				x.stop.Store(true)
				c.Fail("other", "another table: %s", d)
			}
		}
		x.pause(r)
	}
}

// analyse matches the reads against the histories of the writers.
func (x *c16) analyse() {
	c := x.c
	var all []*c16Read
	for _, l := range x.reads {
		all = append(all, l...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].end < all[j].end })
	floors := make([][]int, len(all)) // maximum of the vectors of the first reads
	overlapped, states := 0, map[string]bool{}
	for i, rd := range all {
		if rd.bad != nil {
			x.fail(rd, rd.bad.Key, "%s", rd.bad.Msg)
		}
		k := sort.Search(i, func(j int) bool { return all[j].end >= rd.start })
		floor := make([]int, x.nw)
		if k > 0 {
			copy(floor, floors[k-1])
		}
		if n := x.explain(rd, floor); n > 1 {
			overlapped++
			states[fmt.Sprint(rd.min)] = true
		}
		f := append([]int(nil), rd.min...)
		if i > 0 {
			for w := range f {
				if floors[i-1][w] > f[w] {
					f[w] = floors[i-1][w]
				}
			}
		}
		floors[i] = f
		c.Distinct(fmt.Sprint(rd.name, rd.min))
	}
	// reads at once must agree on the order of the writes
	for i, a := range all {
		for _, b := range all[i+1:] {
			if b.start > a.end {
				continue
			}
			for v := 0; v < x.nw; v++ {
				for w := 0; w < x.nw; w++ {
					if a.max[v] < b.min[v] && b.max[w] < a.min[w] {
						if x.unpublished(a) {
							continue
						}
						x.fail(b, "order", "%s and %s saw writes of two writers in opposite orders: at %v..%v and %v..%v writes", a.name, b.name, a.min, a.max, b.min, b.max)
					}
				}
			}
		}
	}
	c.Eval(len(all))
	c.Count("reads", len(all))
	c.Count("reads-overlapping-writes", overlapped)
	n := 0
	for _, v := range x.vers {
		n += len(v) - 1
	}
	c.Count("writes", n)
	if overlapped > 0 && len(states) > 1 {
		c.Nontrivial()
	}
}

// history tells which states had each row shown, and when the states were.
func (x *c16) history(rd *c16Read, w int, shown []Row) string {
	s := fmt.Sprintf("\n  called at %d, returned at %d; states began and ended at", rd.start, rd.end)
	for k, v := range x.vers[w] {
		s += fmt.Sprintf(" %d:%d-%d", k, v.start, v.end)
	}
	for i := range shown {
		s += fmt.Sprintf("\n  row %d as shown in states", shown[i].ID)
		for k, v := range x.vers[w] {
			if row, ok := v.m.Rows[shown[i].ID]; ok && row.String() == shown[i].String() {
				s += fmt.Sprint(" ", k)
			}
		}
	}
	return s
}

// explain finds the smallest vector of write counts that explains the read and
// returns the number of vectors possible by time.
func (x *c16) explain(rd *c16Read, floor []int) int {
	parts := make([][]Row, x.nw)
	for _, row := range rd.got {
		w := int(row.ID % uint64(x.nw))
		parts[w] = append(parts[w], row)
	}
	cands := make([][]int, x.nw)
	poss := 1
	for w := range cands {
		vs := x.vers[w]
		lo, hi := 0, 0
		for k := range vs {
			if vs[k].end < rd.start {
				lo = k
			}
			if vs[k].start < rd.end {
				hi = k
			}
		}
		if floor[w] > lo {
			lo = floor[w]
		}
		poss *= hi - lo + 1
		diff := ""
		for k := lo; k <= hi; k++ {
			var want []Row
			for _, row := range rd.want(vs[k].m) {
				if int(row.ID%uint64(x.nw)) == w {
					want = append(want, row)
				}
			}
			d := rowsDiff(parts[w], want)
			if d == "" {
				cands[w] = append(cands[w], k)
			} else if k < lo+6 || k == hi {
				diff += fmt.Sprintf("\n  against its state after %d writes: %s", k, d)
			}
		}
		if len(cands[w]) == 0 {
			x.fail(rd, "moment", "%s does not show the rows of writer %d at any moment of the call (between %d and %d of its writes, all its reads before it respected):%s\n  it showed %v%s", rd.name, w, lo, hi, diff, parts[w], x.history(rd, w, parts[w]))
		}
	}
	p := make([]int, x.nw)
	next := func(w, at int) {
		for _, k := range cands[w] {
			if k >= at {
				p[w] = k
				return
			}
		}
		x.fail(rd, "moment", "%s shows a write of one writer but not an earlier completed write %d of writer %d (candidates %v)", rd.name, at, w, cands)
	}
	for w := range p {
		p[w] = cands[w][0]
	}
	for again := true; again; {
		again = false
		for v := range p {
			seen := x.vers[v][p[v]].start // the last write shown began here
			for w := range p {
				if w == v {
					continue
				}
				at := p[w]
				for k := at + 1; k < len(x.vers[w]) && x.vers[w][k].end < seen; k++ {
					at = k
				}
				if at > p[w] {
					next(w, at)
					again = true
				}
			}
		}
	}
	if rd.dec && x.nw > 1 {
		all := newModel(x.def)
		for w := range p {
			for id, row := range x.vers[w][p[w]].m.Rows {
				all.Rows[id] = row
			}
		}
		if rd.owner == nil {
			if d := rowsDiff(rd.got, rd.want(all)); d != "" {
				x.fail(rd, "moment", "%s: the rows are those of one moment, but not the result: %s", rd.name, d)
			}
		}
	}
	rd.min = p
	rd.max = make([]int, x.nw)
	for w := range p {
		rd.max[w] = cands[w][len(cands[w])-1]
	}
	return poss
}
