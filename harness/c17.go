package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/bloom"
)

func init() {
	register(&Check{ID: "C17", Level: "exploration", Quick: 2400, Thorough: 40000, Run: runC17,
		Rule: "neighbouring and extreme table and index numbers, user keys with hostile names, filters kept in the database and raw sentry entries at both ends of the key spaces around each target; after each write, rebuild, wipe, scan, query, dump, filter and user key operation the whole key space compared outside the part the operation owns; every read of a table compared with its own rows; non-trivial: at least three tables held rows",
	})
}

type c17 struct {
	c     *Case
	e     *Env
	hs    []*Hist
	defs  []*TDef
	users map[string]string
	last  []kv
	fs    []*c17Filter
}

type c17Filter struct {
	t      int
	prefix []byte
	lazy   *bond.FilterInitializable
	up     bool
}

func hostileNames() []string {
	return []string{"", "a", "ab", "a\x00", "a\x00b", "\x00", "\xff", "\xff\xff\xff\xff\xff\xff\xff\xff", "__bond_db_data_version__", "bf_", "bf_0", "bf_bn",
		"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", strings.Repeat("\xff", 300), strings.Repeat("long", 1500), strings.Repeat("long", 1500) + "x", strings.Repeat("long", 200), "Abc", "abc", "abd", "filter", "filter0a", "bf`", "日本"}
}

func runC17(c *Case) {
	r := c.R
	x := &c17{c: c, users: map[string]string{}}
	cfg := EnvCfg{Ser: newSerializer(serCBOR)}
	if r.Intn(4) == 0 {
		cfg.Tiny = true
	}
	cfg.Format = bond.DefaultPebbleOptions().FormatMajorVersion
	x.e = newEnv(c, cfg)
	base := byte(1 + r.Intn(254))
	ids := uniq([]byte{base, base + 1, pick(r, []byte{1, 2, 254, 255, 128, byte(1 + r.Intn(255))}), 1, 255}[:3+r.Intn(3)])
	ib := byte(1 + r.Intn(254))
	held := 0
	for i, id := range ids {
		d := &TDef{ID: id, PK: PKKind(r.Intn(int(pkKinds))), Ser: SerKind(r.Intn(int(serKinds))), Prefetch: pick(r, []int{0, 1, 2, 100})}
		ix := uniq([]byte{ib, ib + 1, pick(r, []byte{1, 255, 254, byte(1 + r.Intn(255))}), 255}[:1+r.Intn(4)])
		d.Idx = pickIndexes(r, ix...)
		if r.Intn(4) == 0 {
			f := &c17Filter{t: i, lazy: &bond.FilterInitializable{Filter: bloom.NewBloomFilter(200, 0.05, 1+r.Intn(4))}}
			if len(x.fs) > 0 || r.Intn(2) == 0 {
				f.prefix = bond.NewUserKey(fmt.Sprintf("filter%d_", len(x.fs)))
				f.lazy = &bond.FilterInitializable{Filter: bloom.NewBloomFilter(200, 0.05, 1+r.Intn(4), f.prefix)}
			} else {
				f.prefix = bond.KeyEncode(bond.Key{PrimaryKey: []byte("bf_")})
			}
			d.Filter = f.lazy
			x.fs = append(x.fs, f)
		}
		m := newModel(d)
		h := &Hist{c: c, e: x.e, t: newTab(x.e.db, d), m: m, r: r, batch: true, unsaf: true,
			p: &Profile{IDs: idPool(r, 12), Small: r.Intn(3) > 0, Zero: 50}}
		rs := h.absent(1 + r.Intn(8))
		c.Must(h.t.Insert(bg, rs, nil), "insert")
		m.Put(rs)
		if len(rs) > 0 {
			held++
		}
		x.hs, x.defs = append(x.hs, h), append(x.defs, d)
		c.Logf("%s, %d rows", d.describe(), len(rs))
	}
	for _, n := range hostileNames() {
		if r.Intn(2) == 0 {
			x.users[n] = ""
		}
	}
	for n := range x.users {
		x.users[n] = fmt.Sprintf("value of %.10q", n)
		c.Must(x.e.db.Set(bond.NewUserKey(n), []byte(x.users[n]), bond.NoSync), "Set")
	}
	x.sentries(ids)
	x.last = x.e.dumpAll()
	x.checkUsers()
	if held >= 3 {
		c.Nontrivial()
	}
	for i := 0; i < 22; i++ {
		x.act()
	}
	x.checkUsers()
}

// sentries are entries no operation of the case owns: at the ends of the key
// spaces of tables and indexes that aren't defined.
func (x *c17) sentries(ids []byte) {
	big := bytes.Repeat([]byte{0xff}, 30)
	put := func(t, i byte) {
		for _, h := range x.defs {
			if h.ID == t && (i == 0 || h.idx(i) != nil) {
				return
			}
		}
		for _, k := range [][]byte{specKey(t, i, nil, nil, []byte{0}), specKey(t, i, []byte{0}, nil, nil), specKey(t, i, big, big, big), specKey(t, i, nil, nil, big)} {
			x.c.Must(x.e.db.Backend().Set(k, []byte("sentry"), pebble.NoSync), "set")
		}
		x.c.Count("sentries", 4)
	}
	for _, f := range x.fs { // around the entries of filters
		for _, delta := range []int{-1, 1} {
			k := append([]byte{}, f.prefix...)
			k[len(k)-1] += byte(delta)
			for _, k := range [][]byte{k, append(append([]byte{}, k...), 0), append(append([]byte{}, k...), "0"...)} {
				x.c.Must(x.e.db.Backend().Set(k, []byte("sentry"), pebble.NoSync), "set")
			}
		}
		x.c.Must(x.e.db.Backend().Set(f.prefix[:len(f.prefix)-1], []byte("sentry"), pebble.NoSync), "set")
	}
	for _, d := range x.defs {
		for _, i := range d.Idx {
			if i.ID < 255 {
				put(d.ID, i.ID+1)
			}
			put(d.ID, i.ID-1)
			put(d.ID, 255)
		}
		for _, t := range []int{int(d.ID) - 1, int(d.ID) + 1} {
			if t > 0 && t < 256 {
				put(byte(t), 0)
				put(byte(t), 255)
				put(byte(t), 1)
			}
		}
	}
}

// same fails when anything outside the owned part changed.
func (x *c17) same(what string, own func(k []byte) bool) {
	now := x.e.dumpAll()
	var a, b []kv
	for _, e := range x.last {
		if !own(e.k) {
			a = append(a, e)
		}
	}
	for _, e := range now {
		if !own(e.k) {
			b = append(b, e)
		}
	}
	if d := diffKV(a, b); d != "" {
		x.c.Fail("foreign", "%s touched what isn't its own: %s", what, d)
	}
	x.last = now
	x.c.Eval(1)
	x.c.Count("comparisons", len(a))
}

func nothing([]byte) bool { return false }

// rows of the table and entries of its indexes
func (x *c17) owns(d *TDef) func(k []byte) bool {
	return func(k []byte) bool {
		return len(k) > 1 && k[0] == d.ID && (k[1] == 0 || d.idx(k[1]) != nil)
	}
}

func (x *c17) checkUsers() {
	c := x.c
	keys := map[string]string{}
	for _, n := range hostileNames() {
		k := bond.NewUserKey(n)
		if o, ok := keys[string(k)]; ok {
			c.Fail("user-key", "the user keys %.20q and %.20q are the same", o, n)
		}
		keys[string(k)] = n
		v, cl, err := x.e.db.Get(k)
		w, ok := x.users[n]
		if !ok {
			if err == nil {
				c.Fail("user-key", "user key %.20q holds %q, it was never set", n, v)
			}
			continue
		}
		if err != nil {
			c.Fail("user-key", "user key %.20q: %v", n, err)
		}
		if string(v) != w {
			c.Fail("user-key", "user key %.20q holds %q, was set to %q", n, v, w)
		}
		_ = cl.Close()
	}
	if v := x.e.db.(interface{ Version() int }).Version(); v != bond.BOND_DB_DATA_VERSION {
		c.Fail("version", "the recorded version became %d", v)
	}
}

func (x *c17) act() {
	c := x.c
	r := c.R
	h := pick(r, x.hs)
	d := h.m.Def
	switch k := r.Intn(20); {
	case k < 5:
		h.step(func(key, f string, a ...any) {
			c.Fail("result", "among other tables: "+f, a...)
		})
		x.same(fmt.Sprintf("a write call on table %d", d.ID), x.owns(d))
		want, n := h.m.ExpectKeys(), 0
		for _, e := range x.last {
			if !x.owns(d)(e.k) {
				continue
			}
			n++
			if _, ok := want[string(e.k)]; !ok {
				c.Fail("result", "table %d after a write call holds %s", d.ID, showKey(e.k))
			}
		}
		if n != len(want) {
			c.Fail("result", "table %d after a write call holds %d keys, expected %d", d.ID, n, len(want))
		}
	case k < 10: // reads
		idx := h.genIdx()
		s := h.genSel(idx)
		if r.Intn(2) == 0 && (idx == 0 || !d.idx(idx).VarKey) {
			s = &Sel{Kind: selRange, Rows: []Row{extremeRow(false), extremeRow(true)}}
		}
		if idx == 0 && r.Intn(2) == 0 {
			s = nil
		}
		rev := r.Intn(2) == 0
		h.selReads(idx, s, rev, h.m.selEntries(idx, s, rev), nil, r.Intn(6))
		x.same(fmt.Sprintf("reading table %d", d.ID), nothing)
	case k < 12:
		q := h.genQuery()
		if r.Intn(2) == 0 {
			q = h.genIntersect()
		}
		got, err := h.t.Query(bg, q, nil)
		if s := h.m.qDiff(q, got, err); s != "" {
			c.Fail("result", "query %v of table %d: %s", q, d.ID, s)
		}
		x.same(fmt.Sprintf("a query of table %d", d.ID), nothing)
	case k < 14: // rebuild some indexes
		var ids []byte
		for _, i := range d.Idx {
			if r.Intn(2) == 0 {
				ids = append(ids, i.ID)
			}
		}
		if len(ids) == 0 {
			ids = []byte{d.Idx[0].ID}
		}
		if r.Intn(2) == 0 { // something to remove
			i := d.idx(ids[0])
			st := h.p.row(r)
			for k := range h.m.ExpectKeys() {
				if k == string(d.idxKey(i, &st)) {
					st.ID = 1 << 60
				}
			}
			c.Must(x.e.db.Backend().Set(d.idxKey(i, &st), nil, pebble.NoSync), "set")
			x.last = x.e.dumpAll()
		}
		if err := h.t.ReIndex(ids); err != nil {
			c.Fail("reindex", "ReIndex of %v of table %d: %v", ids, d.ID, err)
		}
		x.same(fmt.Sprintf("rebuilding the indexes %v of table %d", ids, d.ID), func(k []byte) bool {
			return k[0] == d.ID && k[1] != 0 && bytes.IndexByte(ids, k[1]) >= 0
		})
		c.Count("rebuilds", 1)
	case k == 14: // wipe
		var rs []Row
		for _, row := range h.m.Rows {
			rs = append(rs, row)
		}
		h.shuffle(rs)
		if err := h.t.Delete(bg, rs, nil); err != nil {
			c.Fail("result", "delete: %v", err)
		}
		h.m.Del(rs)
		x.same(fmt.Sprintf("deleting the rows of table %d", d.ID), x.owns(d))
		for _, e := range x.last {
			if x.owns(d)(e.k) {
				c.Fail("result", "deleting all rows of table %d left %s", d.ID, showKey(e.k))
			}
		}
		c.Count("wipes", 1)
	case k == 15: // dump
		root := c.Dir()
		c.Must(os.MkdirAll(root, 0o755), "mkdir")
		dir := filepath.Join(root, "d")
		if err := x.e.db.Dump(bg, dir, []bond.TableID{bond.TableID(d.ID)}, r.Intn(2) == 0); err != nil {
			c.Fail("dump", "dump of table %d: %v", d.ID, err)
		}
		x.same(fmt.Sprintf("dumping table %d", d.ID), nothing)
		c.Count("dumps", 1)
		if r.Intn(2) == 0 {
			break
		}
		t := c15Env(c, true)
		before := t.dumpAll()
		if err := t.db.Restore(bg, dir, []bond.TableID{bond.TableID(d.ID)}, true); err != nil {
			c.Fail("dump", "restore of table %d: %v", d.ID, err)
		}
		got := map[string]bool{}
		for _, e := range t.dumpAll() {
			got[string(e.k)] = true
			if e.k[0] != d.ID && e.k[0] != 0 {
				c.Fail("foreign", "the dump of table %d holds %s", d.ID, showKey(e.k))
			}
		}
		for _, e := range before {
			if !got[string(e.k)] {
				c.Fail("foreign", "restoring table %d removed %s", d.ID, showKey(e.k))
			}
		}
	case k < 18 && len(x.fs) > 0:
		f := pick(r, x.fs)
		h := x.hs[f.t]
		what := "initializing"
		var err error
		switch {
		case !f.up:
			err = f.lazy.Initialize(bg, x.e.db, []bond.TableScanner[any]{h.t.AnyScanner()})
			f.up = true
		case r.Intn(2) == 0:
			what, err = "saving", f.lazy.Save(bg, x.e.db)
		default:
			what, err = "clearing", f.lazy.Clear(bg, x.e.db)
		}
		if err != nil {
			c.Fail("filter", "%s the filter %q: %v", what, f.prefix, err)
		}
		x.same(fmt.Sprintf("%s the filter %q", what, f.prefix), func(k []byte) bool { return bytes.HasPrefix(k, f.prefix) })
		c.Count("filter-"+what, 1)
	case k < 19: // user keys
		n := pick(r, hostileNames())
		key := bond.NewUserKey(n)
		only := func(k []byte) bool { return bytes.Equal(k, key) }
		switch r.Intn(3) {
		case 0:
			v := fmt.Sprint("v", r.Intn(1000))
			var b bond.Batch
			if r.Intn(2) == 0 {
				b = x.e.db.Batch(bond.BatchTypeReadWrite)
				c.Must(b.Set(key, []byte(v), bond.Sync), "batch set")
				c.Must(b.Commit(bond.Sync), "commit")
				_ = b.Close()
			} else {
				c.Must(x.e.db.Set(key, []byte(v), bond.Sync), "set")
			}
			x.users[n] = v
		case 1:
			c.Must(x.e.db.Delete(key, bond.Sync), "delete")
			delete(x.users, n)
		default:
			m := pick(r, hostileNames())
			a, b := bond.NewUserKey(n), bond.NewUserKey(m)
			if bytes.Compare(a, b) >= 0 {
				break
			}
			c.Must(x.e.db.DeleteRange(a, b, bond.Sync), "delete range")
			for u := range x.users {
				if u >= n && u < m {
					delete(x.users, u)
				}
			}
			only = func(k []byte) bool { return bytes.Compare(k, a) >= 0 && bytes.Compare(k, b) < 0 }
			for _, f := range x.fs { // filters under user keys may be there
				if f.up && bytes.Compare(f.prefix, a) >= 0 && bytes.Compare(f.prefix, b) < 0 {
					c.Count("filters-in-range", 1)
				}
			}
		}
		x.same(fmt.Sprintf("an operation on the user key %.20q", n), only)
		x.checkUsers()
		c.Count("user-key-ops", 1)
	default:
		if r.Intn(2) == 0 {
			x.e.compact()
		} else {
			x.e.flush()
		}
		x.same("compaction", nothing)
	}
}
