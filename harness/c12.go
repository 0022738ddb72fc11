package main

import (
	"bytes"
	"encoding/binary"
	"sort"

	"github.com/cockroachdb/pebble"
)

func init() {
	register(&Check{ID: "C12", Level: "exploration", Quick: 3500, Thorough: 50000, Run: runC12,
		Rule: "tables and indexes with random, neighbouring and extreme numbers; index key spaces seeded with stale, foreign and missing entries; random subsets rebuilt or added (also refused additions), with tables around the rebuild batch size; the whole key space compared with the one computed from the rows, after flush, compaction and reopen; non-trivial: a rebuilt index held a stale or foreign entry or missed one",
	})
}

func runC12(c *Case) {
	r := c.R
	cfg := EnvCfg{Ser: newSerializer(serCBOR)}
	if r.Intn(4) == 0 {
		cfg.Tiny = true
	}
	e := newEnv(c, cfg)
	id := pick(r, []byte{1, 2, 3, 7, 127, 128, 200, 253, 254, 255})
	big := r.Intn(60) == 0
	tabIDs := []byte{id}
	for _, d := range []int{-1, 1} {
		if n := int(id) + d; n >= 1 && n <= 255 {
			tabIDs = append(tabIDs, byte(n))
		}
	}
	ixSets := [][]byte{{1, 2, 3}, {1, 255, 254}, {7, 8, 6}, {127, 128, 129}, {255, 1}, {254, 255}, {1}, {255}, {100, 200, 5, 6, 9}}
	var ms []*Model
	var ts []Tab
	p := &Profile{IDs: idPool(r, 20), Small: r.Intn(2) == 0}
	for k, tid := range tabIDs {
		def := &TDef{ID: tid, PK: PKKind(r.Intn(int(pkKinds))), Ser: SerKind(r.Intn(int(serKinds)))}
		def.Idx = pickIndexes(r, pick(r, ixSets)...)
		if r.Intn(4) == 0 {
			def.addVarIndex(r)
		}
		m := newModel(def)
		all := def.Idx
		t := newTabIdx(e.db, def, false)
		if k == 0 {
			// the last ones are added later
			def.Idx = all[:r.Intn(len(all)+1)]
		}
		var reg []byte
		for _, d := range def.Idx {
			reg = append(reg, d.ID)
		}
		c.Must(t.AddIndex(reg, false), "AddIndex")
		n := r.Intn(25)
		var rs []Row
		if big && k == 0 {
			n = pick(r, []int{9999, 10000, 10001, 10002, 19999, 20000, 20001, 23000})
			for i := 0; i < n; i++ {
				x := Row{ID: uint64(i) * 7, A: uint32(r.Intn(5)), B: int64(r.Intn(50) - 25), C: uint16(i), U: byte(i), H: int16(i), N: int32(i), On: i%3 > 0}
				if i%5 > 0 {
					x.Opt = i64p(int64(i % 9))
				}
				rs = append(rs, x)
			}
			c.Count("big-tables", 1)
		} else {
			for _, i := range r.Perm(len(p.IDs))[:minI(n, len(p.IDs))] {
				rs = append(rs, p.rowID(r, p.IDs[i]))
			}
		}
		if len(rs) > 0 {
			c.Must(t.Insert(bg, rs, nil), "insert")
		}
		m.Put(rs)
		def.Idx = all
		ms, ts = append(ms, m), append(ts, t)
		c.Logf("table %d: pk %v ser %v indexes %v registered %v, %d rows", tid, def.PK, def.Ser, ixIDs(all), reg, len(rs))
		if k == 0 {
			c12Target(c, e, t, m, reg, p)
		}
	}
	// the target is worked on again with all the tables present
	c12Rebuild(c, e, ts[0], ms[0], p)
	if r.Intn(2) == 0 {
		c12Rebuild(c, e, ts[0], ms[0], p)
	}
	if r.Intn(4) == 0 {
		e.reopen()
		ts[0] = newTab(e.db, ms[0].Def)
		c12Rebuild(c, e, ts[0], ms[0], p)
	}
}

func ixIDs(ds []*IDef) []byte {
	var out []byte
	for _, d := range ds {
		out = append(out, d.ID)
	}
	return out
}

// c12Target adds the indexes that are not registered yet, after attempts that
// must be refused.
func c12Target(c *Case, e *Env, t Tab, m *Model, reg []byte, p *Profile) {
	r := c.R
	def := m.Def
	all := def.Idx
	isReg := map[byte]bool{}
	for _, i := range reg {
		isReg[i] = true
	}
	var rest []byte
	for _, d := range all {
		if !isReg[d.ID] {
			rest = append(rest, d.ID)
		}
	}
	// refused additions
	for n := r.Intn(3); n > 0; n-- {
		var ids []byte
		ids = append(ids, rest...)
		what := "primary"
		switch {
		case len(reg) > 0 && r.Intn(2) == 0:
			ids = append(ids, pick(r, reg))
			what = "registered"
		case len(rest) > 0 && r.Intn(2) == 0:
			ids = append(ids, rest[0])
			what = "repeated"
		default:
			ids = append(ids, 0)
		}
		r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		before := e.dumpAll()
		re := r.Intn(2) == 0
		err := t.AddIndex(ids, re)
		c.Logf("AddIndex(%v, %v), one %s -> %v", ids, re, what, err)
		if err == nil {
			c.Fail("dup-accepted", "AddIndex(%v) with a %s number was accepted", ids, what)
		}
		if len(reg) > 0 && r.Intn(2) == 0 {
			dup := pick(r, reg)
			if err := t.AddIndexDup(dup); err == nil {
				c.Fail("dup-accepted", "adding another index under the used number %d was accepted", dup)
			}
		}
		if d := diffKV(before, e.dumpAll()); d != "" {
			c.Fail("dup-effect", "a refused AddIndex(%v) changed the database: %s", ids, d)
		}
		c.Count("refused", 1)
		// still usable, and none of the refused ones is maintained
		def.Idx = nil
		for _, d := range all {
			if isReg[d.ID] {
				def.Idx = append(def.Idx, d)
			}
		}
		x := p.row(r)
		if err := t.Upsert(bg, []Row{x}, nil, nil); err != nil {
			c.Fail("dup-effect", "upsert after a refused AddIndex: %v", err)
		}
		m.Put([]Row{x})
		c12Space(c, e, m, "after a refused AddIndex")
		if got := infoIDs(t); !bytes.Equal(got, append([]byte{0}, sortedB(reg)...)) {
			c.Fail("dup-effect", "after a refused AddIndex(%v) the table lists indexes %v, want 0 and %v", ids, got, reg)
		}
		def.Idx = all
	}
	for len(rest) > 0 {
		k := 1 + r.Intn(len(rest))
		ids := rest[:k]
		rest = rest[k:]
		// the number may have been used before
		if r.Intn(2) == 0 {
			for _, i := range ids {
				c12Garbage(c, e, m, def.idx(i), p)
			}
		}
		before := e.dumpAll()
		if r.Intn(3) > 0 {
			c.Logf("AddIndex(%v, reindex)", ids)
			if err := t.AddIndex(ids, true); err != nil {
				c.Fail("add", "AddIndex(%v) with reindex failed: %v", ids, err)
			}
		} else {
			c.Logf("AddIndex(%v), ReIndex", ids)
			if err := t.AddIndex(ids, false); err != nil {
				c.Fail("add", "AddIndex(%v) failed: %v", ids, err)
			}
			if d := diffKV(before, e.dumpAll()); d != "" {
				c.Fail("add", "AddIndex(%v) without reindex changed the database: %s", ids, d)
			}
			if err := t.ReIndex(ids); err != nil {
				c.Fail("reindex", "ReIndex(%v) failed: %v", ids, err)
			}
		}
		reg = append(reg, ids...)
		c12After(c, e, m, ids, before, "AddIndex")
		c.Count("added", len(ids))
		if got := infoIDs(t); !bytes.Equal(got, append([]byte{0}, sortedB(reg)...)) {
			c.Fail("add", "after AddIndex(%v) the table lists indexes %v, want 0 and %v", ids, got, reg)
		}
	}
	def.Idx = all
	// they are maintained from now on
	var rs []Row
	for i := 0; i < 3; i++ {
		rs = append(rs, p.row(r))
	}
	if err := t.Upsert(bg, rs, nil, nil); err != nil {
		c.Fail("add", "upsert after AddIndex: %v", err)
	}
	m.Upsert(rs, nil)
	c12Space(c, e, m, "a write after AddIndex")
}

func sortedB(b []byte) []byte {
	o := append([]byte(nil), b...)
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}

func infoIDs(t Tab) []byte {
	var out []byte
	for _, i := range t.Info().Indexes() {
		out = append(out, byte(i.ID()))
	}
	return sortedB(out)
}

func c12Space(c *Case, e *Env, m *Model, what string) {
	d, i := e.keySpaceDiff(m)
	if d != "" || i != "" {
		c.Fail("space", "%s: %s%s", what, d, i)
	}
	c.Eval(1)
}

// c12Garbage spoils an index and says whether it did.
func c12Garbage(c *Case, e *Env, m *Model, d *IDef, p *Profile) bool {
	r := c.R
	def := m.Def
	b := e.db.Backend().NewBatch()
	n := 0
	put := func(k, v []byte) { c.Must(b.Set(k, v, nil), "set"); n++ }
	for k := r.Intn(6); k > 0; k-- {
		switch r.Intn(7) {
		case 0: // stale entry of a live row
			for _, x := range m.Sorted() {
				if r.Intn(4) == 0 {
					y := p.mutate(r, x)
					put(def.idxKey(d, &y), nil)
					break
				}
			}
		case 1: // of a row that does not exist
			y := p.rowID(r, 1<<50+uint64(r.Intn(99)))
			put(def.idxKey(d, &y), nil)
		case 2: // largest and smallest places of the index
			put(specKey(def.ID, d.ID, bytes.Repeat([]byte{0xff}, 1+r.Intn(300)), bytes.Repeat([]byte{0xff}, r.Intn(9)), []byte{0xff, 0xff}), nil)
			put(specKey(def.ID, d.ID, nil, nil, []byte{0}), nil)
		case 3: // another layout
			k := make([]byte, r.Intn(20))
			r.Read(k)
			o := make([]byte, r.Intn(20))
			r.Read(o)
			put(specKey(def.ID, d.ID, k, o, def.pkBytes(&Row{ID: uint64(r.Intn(50))})), []byte("x"))
		case 4: // missing
			for _, x := range m.Sorted() {
				if x := x; r.Intn(2) == 0 {
					c.Must(b.Delete(def.idxKey(d, &x), nil), "delete")
					n++
				}
			}
		case 5: // a long key area: the length comes first in the key
			k := make([]byte, pick(r, []int{256, 65535, 65536, 70000}))
			r.Read(k)
			put(specKey(def.ID, d.ID, k, nil, []byte{1, 2}), nil)
		default: // everything gone
			lo, hi := []byte{def.ID, d.ID, 0, 0, 0, 0}, []byte{def.ID, d.ID, 0, 0xff, 0xff, 0xff}
			c.Must(b.DeleteRange(lo, hi, nil), "delete range")
			n++
		}
	}
	c.Must(b.Commit(pebble.NoSync), "commit")
	_ = b.Close()
	if r.Intn(3) == 0 {
		e.flush()
	}
	if r.Intn(12) == 0 {
		e.compact()
	}
	c.Count("garbage", n)
	return n > 0
}

// c12After compares the whole key space with the previous one in which the
// given indexes are replaced by exact ones.
func c12After(c *Case, e *Env, m *Model, ids []byte, before []kv, what string) {
	def := m.Def
	want := map[string][]byte{}
	in := map[byte]bool{}
	for _, i := range ids {
		in[i] = true
	}
	for _, x := range before {
		if x.k[0] == def.ID && in[x.k[1]] {
			continue
		}
		want[string(x.k)] = x.v
	}
	for _, d := range def.Idx {
		if in[d.ID] {
			for _, x := range m.rawEntries(d) {
				want[string(x.key)] = []byte{}
			}
		}
	}
	check := func(when string) {
		got := e.dumpAll()
		n := 0
		for _, x := range got {
			w, ok := want[string(x.k)]
			own := x.k[0] == def.ID && in[x.k[1]]
			switch {
			case !ok && own:
				c.Fail("index", "%s of %v%s: stale or foreign entry %s", what, ids, when, showKey(clipB(x.k)))
			case !ok:
				c.Fail("other", "%s of %v in table %d%s added %s", what, ids, def.ID, when, showKey(clipB(x.k)))
			case !bytes.Equal(w, x.v):
				c.Fail("other", "%s of %v in table %d%s changed %s", what, ids, def.ID, when, showKey(clipB(x.k)))
			}
			n++
		}
		if n != len(want) {
			have := map[string]bool{}
			for _, x := range got {
				have[string(x.k)] = true
			}
			for k := range want {
				if !have[k] {
					if k[0] == def.ID && in[k[1]] {
						c.Fail("index", "%s of %v%s: missing entry %s", what, ids, when, showKey(clipB([]byte(k))))
					}
					c.Fail("other", "%s of %v in table %d%s removed %s", what, ids, def.ID, when, showKey(clipB([]byte(k))))
				}
			}
		}
		c.Eval(1)
		c.Count("keys", n)
	}
	check("")
	if c.R.Intn(4) == 0 {
		e.flush()
		check(", flushed,")
	}
	if c.R.Intn(6) == 0 {
		e.compact()
		check(", compacted,")
	}
}

func c12Rebuild(c *Case, e *Env, t Tab, m *Model, p *Profile) {
	r := c.R
	def := m.Def
	ids := ixIDs(def.Idx)
	r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	ids = ids[:1+r.Intn(len(ids))]
	for _, i := range ids {
		if r.Intn(5) > 0 && c12Garbage(c, e, m, def.idx(i), p) {
			c.Nontrivial()
		}
	}
	// foreign records around the index key spaces
	if r.Intn(2) == 0 {
		b := e.db.Backend().NewBatch()
		for _, i := range ids {
			for _, d := range []int{-1, 1} {
				n := int(i) + d
				if n < 1 || n > 255 || bytes.IndexByte(ids, byte(n)) >= 0 || def.idx(byte(n)) != nil {
					continue
				}
				var l [4]byte
				binary.BigEndian.PutUint32(l[:], uint32(r.Intn(3)))
				k := append([]byte{def.ID, byte(n)}, l[:]...)
				k = append(k, bytes.Repeat([]byte{byte(r.Intn(2) * 255)}, 12)...)
				c.Must(b.Set(k, []byte("foreign"), nil), "set")
			}
		}
		c.Must(b.Set(append([]byte{0, 255, 0, 0, 0, 0, 0, 0, 0, 0}, 'u'), []byte("user"), nil), "set")
		c.Must(b.Commit(pebble.Sync), "commit")
		_ = b.Close()
	}
	before := e.dumpAll()
	arg := append([]byte(nil), ids...)
	if r.Intn(8) == 0 {
		arg = append(arg, ids[0])
	}
	if r.Intn(4) == 0 {
		// refused by the storage: it has to be told, and nothing else is touched
		p := &failPlan{}
		p.start(r.Intn(len(arg)+3+4*len(m.Rows)), r.Intn(2) == 0, errInjected)
		if r.Intn(3) == 0 {
			p.at = r.Intn(len(arg) + 2)
		}
		err := newTab(&failDB{e.db, p}, def).ReIndex(arg)
		_, fired := p.count()
		c.Logf("ReIndex(%v) with the storage write %d refused (%s) -> %v", arg, p.at, p.last, err)
		c.Count("refused-storage-writes", fired)
		if fired > 0 && err == nil {
			c.Fail("lost-error", "ReIndex(%v) returned success although a %s was refused", arg, p.last)
		}
		if fired == 0 && err != nil {
			c.Fail("reindex", "ReIndex(%v) failed: %v", arg, err)
		}
		in := map[byte]bool{}
		for _, i := range ids {
			in[i] = true
		}
		rest := func(x []kv) (out []kv) {
			for _, y := range x {
				if y.k[0] != def.ID || !in[y.k[1]] {
					out = append(out, y)
				}
			}
			return
		}
		if d := diffKV(rest(before), rest(e.dumpAll())); d != "" {
			c.Fail("other", "a failed ReIndex(%v) of table %d changed other data: %s", arg, def.ID, d)
		}
	}
	if r.Intn(8) == 0 {
		// the primary index is the rows: refused or not, they stay
		with := append(append([]byte(nil), arg[:r.Intn(len(arg)+1)]...), 0)
		with = append(with, arg[r.Intn(len(arg)+1):]...)
		before := e.dumpAll()
		err := t.ReIndex(with)
		c.Logf("ReIndex(%v) -> %v", with, err)
		c.Count("rebuilt-with-primary", 1)
		own := func(x kv) bool { return x.k[0] == def.ID && x.k[1] != 0 && bytes.IndexByte(with, x.k[1]) >= 0 }
		rest := func(x []kv) (out []kv) {
			for _, y := range x {
				if !own(y) {
					out = append(out, y)
				}
			}
			return
		}
		if d := diffKV(rest(before), rest(e.dumpAll())); d != "" {
			c.Fail("rows", "ReIndex(%v) of table %d (0 is the primary index; %v) changed the rows or other data: %s", with, def.ID, err, d)
		}
		if err == nil {
			var sec []byte
			for _, i := range with {
				if i != 0 {
					sec = append(sec, i)
				}
			}
			c12After(c, e, m, sec, before, "ReIndex with the primary index")
		}
	}
	c.Logf("ReIndex(%v)", arg)
	if err := t.ReIndex(arg); err != nil {
		c.Fail("reindex", "ReIndex(%v) failed: %v", arg, err)
	}
	c.Count("rebuilt", len(ids))
	c12After(c, e, m, ids, before, "ReIndex")
	if d, i := e.keySpaceDiff(m); d+i == "" && r.Intn(2) == 0 && len(m.Rows) < 100 {
		// the rebuilt indexes answer and are maintained
		d := def.idx(pick(r, ids))
		all := m.entries(d)
		for n := 0; n < 4 && n < len(all); n++ {
			s := Sel{Kind: selPoint, Rows: []Row{all[r.Intn(len(all))]}}
			got, err := t.ScanIndex(bg, d.ID, s, false, nil)
			if err != nil {
				c.Fail("lookup", "index scan after ReIndex: %v", err)
			}
			if df := rowsDiff(got, m.Select(d.ID, s, false)); df != "" {
				c.Fail("lookup", "index %d after ReIndex: %s", d.ID, df)
			}
		}
		x := p.row(r)
		c.Must(t.Upsert(bg, []Row{x}, nil, nil), "upsert")
		m.Put([]Row{x})
		c12Space(c, e, m, "a write after ReIndex")
	}
}
