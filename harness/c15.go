package main

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cockroachdb/pebble/vfs"
	"github.com/cockroachdb/pebble/vfs/errorfs"
	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C15", Level: "exploration", Quick: 1300, Thorough: 30000, Run: runC15, HangSecs: 120,
		Rule: "databases with random table and index numbers and contents (some larger than one dump file) dumped in part to directories with unusual names and restored in part, through the API and the command line tool; refused, damaged and storage-faulted dumps and restores; dumps with a writer moving rows between tables; the raw key spaces of source and target compared; non-trivial: the restored tables hold rows",
		Setup: func(w *Worker) {
			if os.Getenv("BOND_CLI") == "" {
				panic(harnessErr{"BOND_CLI is not set"})
			}
		}})
}

var c15Dirs = []string{"dump", "a.sst", "table_1", "with space", "[a]*?", "..b", "x\ny", "ünï", "-d", "VERSION", "1.sst/"}

type c15 struct {
	c   *Case
	r   *rand.Rand
	ids []byte
	ms  []*Model
}

func c15Env(c *Case, real bool) *Env {
	cfg := EnvCfg{Ser: newSerializer(serCBOR), Format: bond.DefaultPebbleOptions().FormatMajorVersion}
	if real {
		cfg.FS = vfs.Default
	}
	return newEnv(c, cfg)
}

func runC15(c *Case) {
	r := c.R
	switch k := r.Intn(12); {
	case k < 3:
		c15Concurrent(c)
	case k == 3:
		c15Faulty(c)
	default:
		c15Plain(c, k >= 9)
	}
}

// c15Fill creates the tables.
func c15Fill(c *Case, r *rand.Rand, e *Env, big bool) (ms []*Model) {
	seen := map[byte]bool{}
	base := byte(1 + r.Intn(253))
	for n := 1 + r.Intn(4); n > 0; n-- {
		id := pick(r, []byte{1, 2, 255, 254, base, base + 1, base + 2, 128, byte(1 + r.Intn(255))})
		if seen[id] {
			continue
		}
		seen[id] = true
		var ids []byte
		for _, i := range r.Perm(255)[:r.Intn(5)] {
			ids = append(ids, byte(i+1))
		}
		if r.Intn(2) == 0 {
			ids = append(ids, pick(r, [][]byte{{255}, {1}, {1, 255}, {254, 255}, {1, 2, 3}})...)
		}
		ids = uniq(ids)
		d := &TDef{ID: id, PK: PKKind(r.Intn(int(pkKinds))), Ser: SerKind(r.Intn(int(serKinds))), Idx: pickIndexes(r, ids...)}
		if r.Intn(4) == 0 {
			d.addVarIndex(r)
		}
		m := newModel(d)
		t := newTab(e.db, d)
		p := &Profile{IDs: idPool(r, 40), Small: true, Zero: 30}
		var rs []Row
		for _, id := range r.Perm(len(p.IDs))[:r.Intn(len(p.IDs)+1)] {
			rs = append(rs, p.rowID(r, p.IDs[id]))
		}
		if r.Intn(5) == 0 {
			rs = nil
		}
		if big {
			big = false
			rs = rs[:0]
			for i := 0; i < 420+r.Intn(300); i++ {
				x := p.rowID(r, uint64(i)*3)
				b := make([]byte, 90000)
				r.Read(b)
				for i := range b { // valid text of high entropy
					b[i] = 32 + b[i]%95
				}
				x.Str = string(b)
				rs = append(rs, x)
			}
			for i, d := range d.Idx {
				if d.VarKey {
					rs = rs[:40] // its entries would be as large
					_ = i
					break
				}
			}
			c.Count("tables-of-many-files", 1)
		}
		for len(rs) > 0 {
			n := minI(len(rs), 100)
			c.Must(t.Insert(bg, rs[:n], nil), "insert")
			m.Put(rs[:n])
			rs = rs[n:]
		}
		ms = append(ms, m)
		c.Logf("table %d: indexes %v, %d rows", id, ids, len(m.Rows))
	}
	// entries of other users
	for _, n := range []string{"user", "table_1"} {
		c.Must(e.db.Set(bond.NewUserKey(n), []byte("v"), bond.Sync), "Set")
	}
	// some are in files, some are not
	if r.Intn(2) == 0 {
		e.flush()
	}
	if r.Intn(3) == 0 && len(ms) > 0 {
		m := ms[0]
		t := newTab(e.db, m.Def)
		rs := m.Sorted()
		rs = rs[:len(rs)/2]
		c.Must(t.Delete(bg, rs, nil), "delete")
		m.Del(rs)
	}
	return ms
}

func uniq(b []byte) []byte {
	seen := map[byte]bool{}
	var out []byte
	for _, x := range b {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// c15Want selects what a restore must have added.
func c15Want(src []kv, tables []byte, index bool) map[string]string {
	out := map[string]string{}
	for _, e := range src {
		if bytes.IndexByte(tables, e.k[0]) >= 0 && (e.k[1] == 0 || index) {
			out[string(e.k)] = string(e.v)
		}
	}
	return out
}

func c15Compare(c *Case, what string, empty, got []kv, want map[string]string) {
	base := map[string]string{}
	for _, e := range empty {
		base[string(e.k)] = string(e.v)
	}
	n := 0
	for _, e := range got {
		if v, ok := base[string(e.k)]; ok {
			if v != string(e.v) {
				c.Fail("other", "%s: the record %s was changed", what, showKey(e.k))
			}
			delete(base, string(e.k))
			continue
		}
		v, ok := want[string(e.k)]
		if !ok {
			c.Fail("extra", "%s: the restored database holds %s, which is not selected or was not in the dumped one", what, showKey(e.k))
		}
		if v != string(e.v) {
			c.Fail("value", "%s: %s restored as %x, was %x", what, showKey(e.k), clipB(e.v), clipB([]byte(v)))
		}
		n++
		delete(want, string(e.k))
	}
	for k := range want {
		c.Fail("missing", "%s: %s was not restored (%d missing, %d present)", what, showKey([]byte(k)), len(want), n)
	}
	for k := range base {
		c.Fail("other", "%s: the record %s was removed", what, showKey([]byte(k)))
	}
	c.Eval(n)
	c.Count("entries-restored", n)
	if n > 0 {
		c.Nontrivial()
	}
}

func tids(b []byte) []bond.TableID {
	var out []bond.TableID
	for _, x := range b {
		out = append(out, bond.TableID(x))
	}
	return out
}

// c15CLI runs the command line tool.
func c15CLI(c *Case, cmd, db, dir string, tables []byte, index bool, limit int) (int, string) {
	args := []string{cmd, "--bond-dir", db, "--dir", dir}
	if index {
		args = append(args, "--with-index")
	}
	var l []string
	for _, t := range tables {
		l = append(l, strconv.Itoa(int(t)))
	}
	if c.R.Intn(2) == 0 {
		args = append(args, "--tables", strings.Join(l, ","))
	} else {
		for _, t := range l {
			args = append(args, "--tables="+t)
		}
	}
	return c15Run(c, limit, args...)
}

func c15Run(c *Case, limit int, args ...string) (int, string) {
	p := exec.Command(os.Getenv("BOND_CLI"), args...)
	if limit > 0 {
		p = exec.Command("/bin/sh", append([]string{"-c", fmt.Sprintf(`ulimit -f %d; exec "$0" "$@"`, limit), os.Getenv("BOND_CLI")}, args...)...)
	}
	out, err := p.CombinedOutput()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		c.Harness("bond-cli: %v", err)
	}
	c.Count("cli-runs", 1)
	return p.ProcessState.ExitCode(), string(out)
}

func subset(r *rand.Rand, b []byte) []byte {
	var out []byte
	for _, i := range r.Perm(len(b))[:r.Intn(len(b)+1)] {
		out = append(out, b[i])
	}
	return out
}

func c15Plain(c *Case, cli bool) {
	r := c.R
	src := c15Env(c, cli)
	ms := c15Fill(c, r, src, r.Intn(50) == 0)
	var ids []byte
	for _, m := range ms {
		ids = append(ids, m.Def.ID)
	}
	// also tables that have no rows
	ids = uniq(append(ids, byte(1+r.Intn(255)), pick(r, ids)+1))
	if i := bytes.IndexByte(ids, 0); i >= 0 {
		ids[i] = 255
		ids = uniq(ids)
	}
	sel := subset(r, ids)
	if r.Intn(3) > 0 {
		sel = uniq(append(sel, ids[:1+r.Intn(len(ids))]...))
	}
	if cli && len(sel) == 0 {
		sel = ids[:1]
	}
	withIndex := r.Intn(3) > 0
	root := c.Dir()
	c.Must(os.MkdirAll(root, 0o755), "mkdir")
	dir := root + "/" + pick(r, c15Dirs)
	before := src.dumpAll()
	c.Logf("dump tables %v, indexes %v, to %q, tool %v", sel, withIndex, dir, cli)
	// dump
	dump := func(dir string, sel []byte, limit int) error {
		if !cli {
			return src.db.Dump(bg, dir, tids(sel), withIndex)
		}
		if err := src.close(); err != nil {
			c.Fail("close", "Close: %v", err)
		}
		code, out := c15CLI(c, "dump", src.dir, dir, sel, withIndex, limit)
		if err := src.open(); err != nil {
			c.Fail("reopen", "the dumped database cannot be opened: %v", err)
		}
		if code != 0 {
			return errors.New(out)
		}
		return nil
	}
	if r.Intn(4) == 0 {
		c15BadDump(c, root, cli, ms, dump)
		if d := diffKV(before, src.dumpAll()); d != "" {
			c.Fail("source", "a failing dump changed the database: %s", d)
		}
	}
	if err := dump(dir, sel, 0); err != nil {
		c.Fail("dump", "dump to %q failed: %v", dir, err)
	}
	c.Count("dumps", 1)
	if d := diffKV(before, src.dumpAll()); d != "" {
		c.Fail("source", "the dump changed the database: %s", d)
	}
	if r.Intn(3) == 0 {
		// what happens afterwards doesn't matter
		p := &Profile{IDs: idPool(r, 10), Small: true}
		for _, m := range ms {
			t := newTab(src.db, m.Def)
			c.Must(t.Upsert(bg, []Row{p.row(r)}, func(o, n Row) Row { return n }, nil), "upsert")
		}
	}

	dst := c15Env(c, true)
	empty := dst.dumpAll()
	restore := func(from string, tab []byte, index bool) error {
		if !cli {
			return dst.db.Restore(bg, from, tids(tab), index)
		}
		if err := dst.close(); err != nil {
			c.Fail("close", "Close: %v", err)
		}
		code, out := c15CLI(c, "restore", dst.dir, from, tab, index, 0)
		if err := dst.open(); err != nil {
			c.Fail("reopen", "the restored database cannot be opened: %v", err)
		}
		if code != 0 {
			return errors.New(out)
		}
		return nil
	}
	if r.Intn(3) == 0 {
		c15BadRestore(c, root, dir, sel, ids, withIndex, len(c15Want(before, sel, false)) > 0, func(from string, tab []byte, index bool) {
			if err := restore(from, tab, index); err == nil {
				c.Fail("restore", "restoring tables %v from %q succeeded", tab, from)
			}
			for _, e := range dst.dumpAll() {
				if e.k[0] != 0 && bytes.IndexByte(tab, e.k[0]) < 0 {
					c.Fail("extra", "a failing restore of tables %v added %s", tab, showKey(e.k))
				}
			}
		})
		dst.reopen()
		if len(dst.dumpAll()) != len(empty) {
			dst = c15Env(c, true) // start again with an empty one
		}
	}
	// one or more restores of different tables
	want := map[string]string{}
	rest := append([]byte(nil), sel...)
	steps := 1
	if r.Intn(4) == 0 {
		steps = 2
	}
	for ; steps > 0 && len(rest) > 0; steps-- {
		tab := subset(r, rest)
		if r.Intn(2) == 0 {
			tab = append([]byte(nil), rest...)
		}
		if cli && len(tab) == 0 {
			tab = rest[:1]
		}
		index := r.Intn(3) > 0
		arg := tab
		if len(tab) > 0 && r.Intn(6) == 0 {
			arg = append(append([]byte(nil), tab...), pick(r, tab))
		}
		c.Logf("restore tables %v, indexes %v", arg, index)
		if err := restore(dir, arg, index); err != nil {
			c.Fail("restore", "restoring tables %v (indexes %v) of %v from %q failed: %v", arg, index, sel, dir, err)
		}
		c.Count("restores", 1)
		for k, v := range c15Want(before, tab, index && withIndex) {
			want[k] = v
		}
		var left []byte
		for _, t := range rest {
			if bytes.IndexByte(tab, t) < 0 {
				left = append(left, t)
			}
		}
		rest = left
		w := map[string]string{}
		for k, v := range want {
			w[k] = v
		}
		c15Compare(c, "restore", empty, dst.dumpAll(), w)
		if r.Intn(2) == 0 {
			dst.reopen()
			for k, v := range want {
				w[k] = v
			}
			c15Compare(c, "restore and reopening", empty, dst.dumpAll(), w)
		}
	}
	// the tables can be used
	for _, m := range ms {
		full := true
		for _, x := range m.Rows {
			x := x
			_, ok := want[string(m.Def.dataKey(&x))]
			full = full && ok
		}
		if !full || len(m.Rows) > 200 {
			continue
		}
		t := newTab(dst.db, m.Def)
		rs, err := t.Scan(bg, false, nil)
		if err != nil {
			c.Fail("scan", "scan of a restored table: %v", err)
		}
		if d := rowsDiff(rs, m.Sorted()); d != "" {
			c.Fail("scan", "scan of a restored table: %s", d)
		}
	}
}

// c15BadDump: dumps that cannot succeed.
func c15BadDump(c *Case, root string, cli bool, ms []*Model, dump func(string, []byte, int) error) {
	r := c.R
	ids := []byte{ms[0].Def.ID}
	switch r.Intn(4) {
	case 0: // exists
		d := filepath.Join(root, "exists")
		c.Must(os.MkdirAll(filepath.Join(d, "sub"), 0o755), "mkdir")
		if err := dump(d, ids, 0); err == nil {
			c.Fail("dump", "dump to an existing directory succeeded")
		}
	case 1:
		if err := dump(filepath.Join(root, "no", "parent"), ids, 0); err == nil {
			c.Fail("dump", "dump below a directory that doesn't exist succeeded")
		}
	case 2:
		if err := dump(filepath.Join(root, strings.Repeat("x", 300)), ids, 0); err == nil {
			c.Fail("dump", "dump to an impossible name succeeded")
		}
	case 3:
		// the files cannot be written completely
		if cli && len(ms[0].Rows) > 4 {
			t := len(ms[0].Rows)
			if err := dump(filepath.Join(root, "limited"), ids, 1); err == nil && c15Size(filepath.Join(root, "limited")) > 900 {
				c.Fail("dump", "dump of %d rows with a file size limit of 512 bytes succeeded", t)
			}
		}
	}
	c.Count("refused-dumps", 1)
}

// c15Size is the size of the largest file.
func c15Size(dir string) (n int64) {
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && i.Size() > n {
			n = i.Size()
		}
		return nil
	})
	return
}

// c15BadRestore: restores that cannot succeed, from damaged copies of the dump.
func c15BadRestore(c *Case, root, dir string, sel, ids []byte, withIndex, rows bool, fails func(string, []byte, bool)) {
	r := c.R
	copyTo := filepath.Join(root, "copy of dump")
	c.Must(exec.Command("cp", "-r", "--", dir, copyTo).Run(), "cp")
	all := sel
	if len(all) == 0 {
		all = ids[:1]
	}
	c.Count("refused-restores", 1)
	k := r.Intn(7)
	c.Logf("bad restore %d", k)
	switch k {
	case 0:
		fails(filepath.Join(root, "nothing"), all, withIndex)
	case 1: // a table that was not dumped
		for _, t := range ids {
			if bytes.IndexByte(sel, t) < 0 {
				fails(copyTo, append(append([]byte(nil), sel...), t), withIndex)
				break
			}
		}
	case 2:
		c.Must(os.WriteFile(filepath.Join(copyTo, "VERSION"), []byte{0, 0, 0, byte(bond.BOND_DB_DATA_VERSION + 1 - 2*r.Intn(2))}, 0o644), "write")
		fails(copyTo, all, withIndex)
	case 3:
		c.Must(os.WriteFile(filepath.Join(copyTo, "VERSION"), make([]byte, r.Intn(4)), 0o644), "write")
		fails(copyTo, all, withIndex)
	case 4:
		c.Must(os.Remove(filepath.Join(copyTo, "VERSION")), "remove")
		fails(copyTo, all, withIndex)
	case 5: // the files of a table are gone or damaged
		if len(sel) == 0 {
			return
		}
		t := pick(r, sel)
		td := filepath.Join(copyTo, fmt.Sprintf("table_%d", t))
		fs, err := os.ReadDir(td)
		if err != nil || len(fs) == 0 {
			c.Harness("dump of table %d: %v", t, err)
		}
		f := filepath.Join(td, fs[r.Intn(len(fs))].Name())
		switch r.Intn(3) {
		case 0:
			c.Must(os.Truncate(f, int64(r.Intn(40))), "truncate")
		case 1:
			c.Must(os.WriteFile(f, []byte("this is not a table of sorted strings, which is longer than its footer would be"), 0o644), "write")
		default:
			c.Must(os.RemoveAll(td), "remove")
		}
		fails(copyTo, sel, withIndex)
	default: // restored before
		d, err := bond.Open(filepath.Join(c.Dir(), "first"), &bond.Options{PebbleOptions: bond.DefaultPebbleOptions()})
		c.Must(err, "open")
		defer d.Close()
		if err := d.Restore(bg, copyTo, tids(sel), withIndex); err != nil {
			c.Fail("restore", "restoring a copy of the dump failed: %v", err)
		}
		if rows {
			fails(copyTo, sel, withIndex)
		}
	}
}

// c15Faulty dumps a database whose storage fails reads.
func c15Faulty(c *Case) {
	r := c.R
	var at, n atomic.Int64
	at.Store(-1)
	inj := errorfs.InjectorFunc(func(op errorfs.Op) error {
		if op.Kind == errorfs.OpFileReadAt || op.Kind == errorfs.OpOpen {
			if strings.HasSuffix(op.Path, ".sst") {
				k := n.Add(1)
				if a := at.Load(); a >= 0 && k > a {
					return errors.New("injected read failure")
				}
			}
		}
		return nil
	})
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR), FS: errorfs.Wrap(vfs.NewMem(), inj), Tiny: true, NoAuto: true,
		Format: bond.DefaultPebbleOptions().FormatMajorVersion})
	ms := c15Fill(c, r, e, false)
	e.flush()
	e.reopen()
	var sel []byte
	for _, m := range ms {
		sel = append(sel, m.Def.ID)
	}
	before := e.dumpAll()
	e.reopen()
	root := c.Dir()
	c.Must(os.MkdirAll(root, 0o755), "mkdir")
	// every position, spread over the whole dump
	n.Store(0)
	if err := e.db.Dump(bg, filepath.Join(root, "d"), tids(sel), true); err != nil {
		c.Fail("dump", "dump failed: %v", err)
	}
	total := n.Load()
	failed := 0
	for k := int64(0); k < total; k += 1 + total/12 {
		e.reopen()
		n.Store(0)
		at.Store(k)
		d := filepath.Join(root, fmt.Sprintf("d%d", k))
		err := e.db.Dump(bg, d, tids(sel), true)
		hit := n.Load() > k
		at.Store(-1)
		if err != nil {
			failed++
			if !hit {
				c.Fail("dump", "dump failed without a fault: %v", err)
			}
			continue
		}
		dst := c15Env(c, true)
		empty := dst.dumpAll()
		if err := dst.db.Restore(bg, d, tids(sel), true); err != nil {
			c.Fail("restore", "restoring a dump reported complete failed: %v", err)
		}
		c15Compare(c, fmt.Sprintf("dump reported complete with reads failing from the %d. of %d on", k, total), empty, dst.dumpAll(), c15Want(before, sel, true))
	}
	c.Count("faulted-dumps", failed)
	if failed > 0 {
		c.Nontrivial()
	}
	if d := diffKV(before, e.dumpAll()); d != "" {
		c.Fail("source", "failing dumps changed the database: %s", d)
	}
}

// c15Concurrent dumps while one writer changes all tables in each commit.
func c15Concurrent(c *Case) {
	r := c.R
	e := c15Env(c, false)
	nt := 2 + r.Intn(3)
	var ds []*TDef
	var ts []Tab
	var sel []byte
	for i := 0; i < nt; i++ {
		d := &TDef{ID: []byte{1, 2, 254, 255, 9}[i], PK: pkU64, Ser: serCBOR, Idx: pickIndexes(r, []byte{1, 2, 255}[:1+r.Intn(3)]...)}
		ds, ts, sel = append(ds, d), append(ts, newTab(e.db, d)), append(sel, d.ID)
	}
	r.Shuffle(len(sel), func(i, j int) { sel[i], sel[j] = sel[j], sel[i] })
	p := &Profile{IDs: idPool(r, 12), Small: true}
	const clock = uint64(1) << 50
	var mu sync.Mutex
	states := map[int32][32]byte{}
	ms := make([]*Model, nt)
	for i := range ms {
		ms[i] = newModel(ds[i])
	}
	var seq atomic.Int64
	commit := func(r *rand.Rand) {
		s := int32(seq.Load() + 1)
		b := e.db.Batch(bond.BatchTypeReadWrite)
		defer b.Close()
		// rows wander between the tables
		for i, t := range ts {
			m := ms[i]
			var del []Row
			for _, x := range m.Sorted() {
				if x.ID != clock && r.Intn(4) == 0 {
					del = append(del, x)
				}
			}
			if len(del) > 0 {
				c.Must(t.Delete(bg, del, b), "delete")
				m.Del(del)
			}
			j := (i + 1) % nt
			for _, x := range del {
				if _, ok := ms[j].Rows[x.ID]; !ok {
					x = p.mutate(r, x)
					c.Must(ts[j].Insert(bg, []Row{x}, b), "insert")
					ms[j].Put([]Row{x})
				}
			}
			up := []Row{{ID: clock, N: s, A: uint32(s), On: true}}
			if x := p.row(r); x.ID != clock {
				up = append(up, x)
			}
			c.Must(t.Upsert(bg, up, func(o, n Row) Row { return n }, b), "upsert")
			m.Put(up)
		}
		mu.Lock()
		states[s] = c15Hash(ms)
		mu.Unlock()
		if err := b.Commit(bond.NoSync); err != nil {
			c.Fail("commit", "commit: %v", err)
		}
		seq.Store(int64(s))
	}
	for i := 0; i < 5; i++ {
		commit(r)
	}
	if r.Intn(2) == 0 {
		e.flush()
	}
	root := c.Dir()
	c.Must(os.MkdirAll(root, 0o755), "mkdir")
	type res struct {
		dir    string
		lo, hi int64
	}
	var done []res
	var stop atomic.Bool
	pause := r.Intn(3)
	c.Par(2, func(g int, r *rand.Rand) {
		if g == 0 {
			for !stop.Load() {
				commit(r)
				switch pause {
				case 1:
					runtime.Gosched()
				case 2:
					time.Sleep(time.Duration(r.Intn(100)) * time.Microsecond)
				}
				if seq.Load() > 20000 {
					time.Sleep(time.Millisecond)
				}
			}
			return
		}
		defer stop.Store(true)
		for i := 0; i < 3; i++ {
			d := filepath.Join(root, fmt.Sprintf("d%d", i))
			lo := seq.Load()
			err := e.db.Dump(bg, d, tids(sel), true)
			hi := seq.Load() + 1 // one commit may be under way
			if err != nil {
				c.Fail("dump", "dump with a writer failed: %v", err)
			}
			done = append(done, res{d, lo, hi})
		}
	})
	moved := 0
	for _, d := range done {
		dst := c15Env(c, true)
		if err := dst.db.Restore(bg, d.dir, tids(sel), true); err != nil {
			c.Fail("restore", "restore failed: %v", err)
		}
		got := make([]*Model, nt)
		for i, def := range ds {
			got[i] = newModel(def)
			rs, err := newTab(dst.db, def).Scan(bg, false, nil)
			if err != nil {
				c.Fail("scan", "scan: %v", err)
			}
			got[i].Put(rs)
		}
		s := got[0].Rows[clock].N
		for i := range got {
			if n := got[i].Rows[clock].N; n != s {
				c.Fail("snapshot", "the dump holds table %d as of commit %d and table %d as of commit %d", ds[0].ID, s, ds[i].ID, n)
			}
		}
		if int64(s) < d.lo || int64(s) > d.hi {
			c.Fail("snapshot", "the dump holds commit %d, it was made between commits %d and %d", s, d.lo, d.hi)
		}
		if c15Hash(got) != states[s] {
			c.Fail("snapshot", "the rows of the dump are not those of commit %d", s)
		}
		for i := range got {
			data, index := dst.keySpaceDiff(got[i])
			if data+index != "" {
				c.Fail("snapshot", "indexes of the dump are of another moment than its rows: %s%s", data, index)
			}
		}
		moved += int(d.hi - d.lo - 1)
		c.Distinct(fmt.Sprint("conc", d.hi-d.lo, s))
		c.Count("concurrent-dumps", 1)
		c.Eval(1)
	}
	c.Count("commits-during-dumps", moved)
	c.Logf("%d dumps of tables %v with %d commits during them", len(done), sel, moved)
	if moved > 0 {
		c.Nontrivial()
	}
}

func c15Hash(ms []*Model) (out [32]byte) {
	h := sha256.New()
	for _, m := range ms {
		var ks []string
		for _, x := range m.Rows {
			ks = append(ks, x.String())
		}
		sort.Strings(ks)
		fmt.Fprintln(h, m.Def.ID, ks)
	}
	h.Sum(out[:0])
	return
}
