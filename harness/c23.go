package main

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/bloom"
)

func init() {
	register(&Check{ID: "C23", Level: "exploration", Quick: 1400, Thorough: 20000, Run: runC23,
		Rule: "histories of open, write, flush, close, refused open (other storage format, other data version, damaged record, directory in use), migration (newer, same, unsupported, of an open database) on real directories, the directory compared byte for byte after each refusal and the whole key space after each acceptance; databases recorded by the pinned commit opened, read through every access path, written to and compared key for key; non-trivial: a refusal and a migration, or a recorded database",
	})
}

type c23 struct {
	c     *Case
	e     *Env
	dir   string
	f     pebble.FormatMajorVersion // recorded
	hs    []*Hist
	defs  []*TDef
	users map[string]string
	keys  []kv
}

func runC23(c *Case) {
	log.SetOutput(io.Discard) // pebble's own, with default options
	if c.R.Intn(3) == 0 {
		c23Golden(c)
		return
	}
	r := c.R
	x := &c23{c: c, dir: filepath.Join(c.Dir(), "db"), f: pebble.FormatMinSupported + pebble.FormatMajorVersion(r.Intn(int(pebble.FormatNewest-pebble.FormatMinSupported)+1)), users: map[string]string{}}
	if r.Intn(2) == 0 {
		x.f = pebble.FormatMinSupported
	}
	if r.Intn(8) == 0 {
		c.Must(os.MkdirAll(x.dir, 0o755), "mkdir")
	}
	x.e = newEnv(c, EnvCfg{FS: vfs.Default, Dir: x.dir, Format: x.f, Ser: newSerializer(serCBOR)})
	for i := 0; i < 1+r.Intn(3); i++ {
		d := &TDef{ID: pick(r, []byte{1, 2, 3, 127, 128, 254, 255}), PK: PKKind(r.Intn(int(pkKinds))), Ser: SerKind(r.Intn(int(serKinds)))}
		for _, o := range x.defs {
			if o.ID == d.ID {
				d = nil
				break
			}
		}
		if d == nil {
			continue
		}
		d.Idx = pickIndexes(r, uniq([]byte{1, 255, byte(1 + r.Intn(255))}[:1+r.Intn(3)])...)
		x.defs = append(x.defs, d)
		x.hs = append(x.hs, &Hist{c: c, e: x.e, t: newTab(x.e.db, d), m: newModel(d), r: r, batch: true, p: &Profile{IDs: idPool(r, 20), Small: r.Intn(2) == 0, Zero: 50}})
	}
	x.recorded("after the first open")
	x.write()
	refused, migrated := 0, 0
	for n := 3 + r.Intn(6); n > 0; n-- {
		switch r.Intn(10) {
		case 0, 1:
			x.write()
		case 2, 3:
			x.reopen("")
		case 4:
			x.closed()
			x.refuse(x.other(), "another format")
			refused++
			x.reopened()
		case 5:
			x.closed()
			x.migrate()
			migrated++
			x.reopened()
		case 6:
			x.closed()
			x.migrateBad()
			refused++
			x.reopened()
		case 7:
			x.dataVersion()
			refused++
		case 8:
			x.closed()
			x.record()
			refused++
			x.reopened()
		case 9:
			x.inUse()
			refused++
		}
	}
	x.check("at the end")
	c.Must(x.e.close(), "close")
	if refused > 0 && migrated > 0 {
		c.Nontrivial()
	}
}

func (x *c23) write() {
	r := x.c.R
	for n := r.Intn(6); n >= 0; n-- {
		h := pick(r, x.hs)
		h.step(func(key, f string, a ...any) { x.c.Fail(key, f, a...) })
	}
	if r.Intn(2) == 0 {
		k, v := fmt.Sprint("u", r.Intn(5)), fmt.Sprint(r.Int63())
		x.c.Must(x.e.db.Set(bond.NewUserKey(k), []byte(v), bond.Sync), "set")
		x.users[k] = v
	}
	switch r.Intn(4) {
	case 0:
		x.e.flush()
	case 1:
		x.e.flush()
		x.e.compact()
	}
}

// check compares the open database with the models.
func (x *c23) check(when string) {
	for _, h := range x.hs {
		if d, i := x.e.keySpaceDiff(h.m); d+i != "" {
			x.c.Fail("content", "%s: %s %s", when, d, i)
		}
		got, err := h.t.Scan(bg, false, nil)
		if err != nil {
			x.c.Fail("content", "%s: scan failed: %v", when, err)
		}
		if d := rowsDiff(got, h.m.Sorted()); d != "" {
			x.c.Fail("content", "%s: %s", when, d)
		}
		x.c.Eval(1)
	}
	for k, v := range x.users {
		b, cl, err := x.e.db.Get(bond.NewUserKey(k))
		if err != nil || string(b) != v {
			x.c.Fail("content", "%s: user key %s is %q (%v), want %q", when, k, b, err, v)
		}
		_ = cl.Close()
	}
	n := len(x.users) + 1
	for _, h := range x.hs {
		n += len(h.m.ExpectKeys())
	}
	if got := x.e.dumpAll(); len(got) != n {
		x.c.Fail("content", "%s: %d keys in the database, want %d", when, len(got), n)
	}
	if v, ok := x.e.db.(interface{ Version() int }); ok && v.Version() != bond.BOND_DB_DATA_VERSION {
		x.c.Fail("data-version", "%s: the data version is %d", when, v.Version())
	}
}

// closed closes the database, remembering its key space.
func (x *c23) closed() {
	x.keys = x.e.dumpAll()
	x.c.Must(x.e.close(), "close")
}

func (x *c23) reopened() { x.open(""); x.check("after reopening") }

func (x *c23) open(when string) {
	x.e.cfg.Default = 0
	if x.f == pebble.FormatMinSupported && x.c.R.Intn(5) == 0 {
		x.e.cfg.Default = 1 + x.c.R.Intn(4)
		when += fmt.Sprintf(" with default options (%d)", x.e.cfg.Default)
		x.c.Count("opened-default", 1)
	}
	if err := x.e.open(); err != nil {
		x.c.Fail("open", "opening with the recorded format %d%s failed: %v", x.f, when, err)
	}
	for i, h := range x.hs {
		h.t = newTab(x.e.db, x.defs[i])
	}
	if d := diffKV(x.keys, x.e.dumpAll()); d != "" {
		x.c.Fail("content", "the key space changed by closing and opening%s: %s", when, d)
	}
	x.recorded("after opening" + when)
	x.c.Count("opened", 1)
}

func (x *c23) reopen(when string) {
	x.closed()
	x.open(when)
	x.check("after reopening" + when)
}

// recorded checks the recorded format and the one in use.
func (x *c23) recorded(when string) {
	v, err := bond.PebbleFormatVersion(x.dir)
	if err != nil || v != uint64(x.f) {
		x.c.Fail("recorded", "%s the recorded format is %d (%v), want %d", when, v, err, x.f)
	}
	if x.e.db != nil {
		if g := x.e.db.Backend().FormatMajorVersion(); g != x.f {
			x.c.Fail("recorded", "%s the format in use is %d, want %d", when, g, x.f)
		}
	}
}

func dirBytes(dir string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if i.IsDir() {
			out[rel] = "dir"
			return nil
		}
		b, err := os.ReadFile(p)
		out[rel] = "file " + string(b)
		return err
	})
	return out, err
}

func dirDiff(a, b map[string]string) string {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			return "removed " + k
		} else if w != v {
			return "changed " + k
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return "added " + k
		}
	}
	return ""
}

func (x *c23) other() pebble.FormatMajorVersion {
	for {
		f := pebble.FormatMinSupported + pebble.FormatMajorVersion(x.c.R.Intn(int(pebble.FormatNewest-pebble.FormatMinSupported)+1))
		if f != x.f {
			return f
		}
	}
}

// refuse tries to open the closed database with the wrong format.
func (x *c23) refuse(f pebble.FormatMajorVersion, why string) {
	was, err := dirBytes(x.dir)
	if err != nil {
		x.c.Harness("%v", err)
	}
	cfg := x.e.cfg
	cfg.Format, cfg.Default = f, 0
	if f == pebble.FormatMinSupported && x.c.R.Intn(2) == 0 {
		cfg.Default = 1 + x.c.R.Intn(4)
		why += fmt.Sprintf(", default options (%d)", cfg.Default)
	}
	e := &Env{c: x.c, cfg: cfg, dir: x.dir, fs: vfs.Default}
	if err := e.open(); err == nil {
		_ = e.close()
		x.c.Fail("accepted", "%s: a database recorded with format %d was opened with %d", why, x.f, f)
	}
	x.c.Eval(1)
	x.c.Count("refused", 1)
	now, err := dirBytes(x.dir)
	if err != nil {
		x.c.Harness("%v", err)
	}
	if d := dirDiff(was, now); d != "" {
		x.c.Fail("refusal-changed", "%s: refused opening (recorded %d, wanted %d) %s", why, x.f, f, d)
	}
}

func (x *c23) migrate() {
	to := x.f
	if x.f < pebble.FormatNewest {
		to += pebble.FormatMajorVersion(x.c.R.Intn(int(pebble.FormatNewest-x.f) + 1))
	}
	x.c.Logf("migrate %d -> %d", x.f, to)
	old := x.f
	if err := bond.MigratePebbleFormatVersion(x.dir, uint64(to)); err != nil {
		x.c.Fail("migrate", "migrating from %d to %d failed: %v", x.f, to, err)
	}
	x.f = to
	x.e.cfg.Format = to
	x.recorded("after migrating")
	x.c.Count("migrated", 1)
	if old != to {
		x.refuse(old, "the format before migrating")
	}
	left, err := filepath.Glob(filepath.Join(x.dir, "bond", "*"))
	if err != nil || len(left) != 1 {
		x.c.Fail("leftover", "files in the bond directory after migrating: %v %v", left, err)
	}
}

// migrateBad tries migrations that can't be done.
func (x *c23) migrateBad() {
	to := pick(x.c.R, []uint64{uint64(pebble.FormatNewest) + 40, 1 << 40, 99})
	err, panicked := protect(func() error { return bond.MigratePebbleFormatVersion(x.dir, to) })
	if err == nil && !panicked {
		x.c.Fail("migrate-bad", "migrating to format %d reported success", to)
	}
	x.recorded(fmt.Sprintf("after a failed migration to %d (%v)", to, err))
	x.c.Eval(1)
}

// dataVersion records another data version.
func (x *c23) dataVersion() {
	r := x.c.R
	key := bond.KeyEncode(bond.Key{TableID: bond.BOND_DB_DATA_TABLE_ID, PrimaryKey: []byte("__bond_db_data_version__")})
	b, cl, err := x.e.db.Backend().Get(key)
	if err != nil {
		x.c.Fail("data-version", "no data version recorded: %v", err)
	}
	good := string(b)
	_ = cl.Close()
	if good != strconv.Itoa(bond.BOND_DB_DATA_VERSION) {
		x.c.Fail("data-version", "data version %q recorded", good)
	}
	bad := pick(r, []string{"2", "-1", "abc", "4294967297", "10", "3", "99999999999999999999", "1x", "", "11", "257", "65537"})
	x.c.Must(x.e.db.Backend().Set(key, []byte(bad), pebble.Sync), "set")
	x.keys = x.e.dumpAll()
	x.c.Must(x.e.close(), "close")
	if err := x.e.open(); err == nil {
		_ = x.e.close()
		x.c.Fail("accepted", "a database with data version %q was opened", bad)
	}
	x.c.Eval(1)
	x.c.Count("refused", 1)
	x.recorded("after refusing data version " + bad)
	o := x.e.cfg.pebbleOptions(vfs.Default)
	o.Comparer = bond.DefaultKeyComparer()
	p, err := pebble.Open(x.dir, o)
	if err != nil {
		x.c.Fail("refused-open", "after a refused open the directory can't be opened: %v", err)
	}
	it, err := p.NewIter(nil)
	x.c.Must(err, "iter")
	var now []kv
	for it.First(); it.Valid(); it.Next() {
		now = append(now, kv{append([]byte(nil), it.Key()...), append([]byte(nil), it.Value()...)})
	}
	x.c.Must(it.Close(), "iter")
	if d := diffKV(x.keys, now); d != "" {
		x.c.Fail("refusal-changed", "refused opening (data version %q) changed the key space: %s", bad, d)
	}
	x.c.Must(p.Set(key, []byte(good), pebble.Sync), "set")
	x.c.Must(p.Close(), "close")
	for i := range x.keys {
		if bytes.Equal(x.keys[i].k, key) {
			x.keys[i].v = []byte(good)
		}
	}
	x.open(" with the data version restored")
	x.check("after restoring the data version")
}

// record damages the record of the format, or removes it.
func (x *c23) record() {
	r := x.c.R
	p := filepath.Join(x.dir, "bond", bond.PebbleFormatFile)
	good, err := os.ReadFile(p)
	if err != nil {
		x.c.Fail("recorded", "no format record: %v", err)
	}
	if r.Intn(4) == 0 { // as left by versions without the record
		x.c.Must(os.Remove(p), "remove")
		if v, err := bond.PebbleFormatVersion(x.dir); v != 0 || err != nil {
			x.c.Fail("recorded", "with no record of the format, it is %d (%v)", v, err)
		}
		return
	}
	bad := pick(r, []string{"", "x", "-1", "13x", "99999999999999999999999", " 13", fmt.Sprint(uint64(x.f) + 1), fmt.Sprint(uint64(x.f) - 1), fmt.Sprint(uint64(x.f) * 10), fmt.Sprint(uint64(x.f) + 1<<(8*(1+r.Intn(7)))), "0", fmt.Sprint(uint64(math.MaxUint64))})
	x.c.Must(os.WriteFile(p, []byte(bad), 0o755), "write")
	if n, e := strconv.ParseUint(bad, 10, 64); true {
		if v, err := bond.PebbleFormatVersion(x.dir); (e == nil) != (err == nil) || e == nil && v != n {
			x.c.Fail("recorded", "the format recorded as %q is %d (%v)", bad, v, err)
		}
	}
	x.refuse(x.f, fmt.Sprintf("format record %q", bad))
	x.c.Must(os.WriteFile(p, good, 0o755), "write")
}

// inUse opens and migrates the directory of the open database.
func (x *c23) inUse() {
	x.keys = x.e.dumpAll()
	e := &Env{c: x.c, cfg: x.e.cfg, dir: x.dir, fs: vfs.Default}
	if err := e.open(); err == nil {
		_ = e.close()
		x.c.Fail("locked", "the directory of an open database was opened again")
	}
	if x.f < pebble.FormatNewest {
		if err := bond.MigratePebbleFormatVersion(x.dir, uint64(pebble.FormatNewest)); err == nil {
			x.c.Fail("locked", "an open database was migrated")
		}
	}
	x.c.Eval(2)
	x.recorded("after refusing a database in use")
	if d := diffKV(x.keys, x.e.dumpAll()); d != "" {
		x.c.Fail("refusal-changed", "opening a database in use changed %s", d)
	}
	x.write()
	x.reopen(" after a refused second open")
}

// c23Golden opens a database recorded by the pinned commit.
func c23Golden(c *Case) {
	r := c.R
	n := r.Intn(4)
	dir := filepath.Join(c.Dir(), "db")
	m, err := unpackGolden(n, dir)
	if err != nil {
		c.Harness("golden: %v", err)
	}
	x := &c23{c: c, dir: dir, f: pebble.FormatMajorVersion(m.Format), users: map[string]string{}}
	x.e = &Env{c: c, cfg: EnvCfg{FS: vfs.Default, Dir: dir, Format: x.f, Ser: newSerializer(serCBOR)}, dir: dir, fs: vfs.Default}
	x.recorded("a recorded database:")
	switch r.Intn(4) {
	case 0:
		x.refuse(x.other(), "recorded database, another format")
	case 1:
		x.migrate()
	}
	if err := x.e.open(); err != nil {
		c.Fail("golden-open", "database %d recorded by the pinned commit can't be opened: %v", n, err)
	}
	c.Cleanup(func() {
		if x.e.db != nil {
			_ = x.e.close()
		}
	})
	x.recorded("after opening a recorded database")
	for k, v := range m.User {
		x.users[k] = string(v)
	}
	var fkeys int
	for i := range m.Tables {
		g := &m.Tables[i]
		d := g.def()
		h := &Hist{c: c, e: x.e, t: newTab(x.e.db, d), m: newModel(d), r: r, batch: true, p: &Profile{IDs: idPool(r, 20), Small: r.Intn(2) == 0, Zero: 50}}
		h.m.Put(g.Rows)
		for _, row := range g.Rows[:len(g.Rows)/2] {
			h.p.IDs = append(h.p.IDs, row.ID)
		}
		x.hs = append(x.hs, h)
		x.defs = append(x.defs, d)
	}
	f := &m.Filter
	for _, k := range x.e.dumpAll() {
		if bytes.HasPrefix(k.k, f.Prefix) && !strings.HasPrefix(string(k.k), string(bond.NewUserKey("user"))) {
			fkeys++
		}
	}
	if fkeys == 0 {
		c.Harness("no filter in the recorded database")
	}
	chk := func(when string) {
		for _, h := range x.hs {
			if d, i := x.e.keySpaceDiff(h.m); d+i != "" {
				c.Fail("golden-content", "%s: %s %s", when, d, i)
			}
			got, err := h.t.Scan(bg, false, nil)
			if err != nil {
				c.Fail("golden-content", "%s: scan: %v", when, err)
			}
			if d := rowsDiff(got, h.m.Sorted()); d != "" {
				c.Fail("golden-content", "%s: %s", when, d)
			}
			for k := 0; k < 4; k++ {
				q := h.genQuery()
				got, err := h.t.Query(bg, q, nil)
				if d := h.m.qDiff(q, got, err); d != "" {
					c.Fail("golden-query", "%s: %v: %s", when, q, d)
				}
				c.Eval(1)
			}
			for _, row := range h.m.Rows {
				g, err := h.t.GetPoint(bg, row, nil)
				if err != nil || !g.Equal(row) {
					c.Fail("golden-content", "%s: get of %v gives %v, %v", when, row, g, err)
				}
			}
		}
		for k, v := range x.users {
			b, cl, err := x.e.db.Get(bond.NewUserKey(k))
			if err != nil || string(b) != v {
				c.Fail("golden-content", "%s: user key %s is %q (%v)", when, k, b, err)
			}
			_ = cl.Close()
		}
		w := len(x.users) + 1 + fkeys
		for _, h := range x.hs {
			w += len(h.m.ExpectKeys())
		}
		if g := x.e.dumpAll(); len(g) != w {
			c.Fail("golden-content", "%s: %d keys, want %d", when, len(g), w)
		}
	}
	chk("recorded database")
	// the filter saved in it
	bf := bloom.NewBloomFilter(f.N, f.FP, f.Buckets, f.Prefix)
	if err := bf.Load(bg, x.e.db); err != nil {
		c.Fail("golden-filter", "the recorded filter can't be loaded: %v", err)
	}
	for i, h := range x.hs {
		if m.Tables[i].ID != f.Table {
			continue
		}
		for _, row := range m.Tables[i].Rows {
			if !bf.MayContain(bg, h.m.Def.dataKey(&row)) {
				c.Fail("golden-filter", "the recorded filter, loaded, denies row %v", row)
			}
		}
	}
	c.Count("recorded", 1)
	for k := r.Intn(12); k >= 0; k-- {
		x.write()
	}
	chk("recorded database, written to")
	x.closed()
	x.open("")
	chk("recorded database, reopened")
	c.Must(x.e.close(), "close")
	c.Nontrivial()
}
