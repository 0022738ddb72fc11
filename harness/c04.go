package main

import (
	"bufio"
	"context"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/cockroachdb/pebble/vfs"
	"github.com/cockroachdb/pebble/vfs/errorfs"
	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C04", Level: "fault_enumeration", Quick: 2400, Thorough: 16000, Run: runC04,
		Rule:   "a workload of table writes, multi-table batch commits, flushes, compactions and reindexing stopped at a drawn file-system operation - in memory with everything unsynced dropped, or a process of its own killed by SIGKILL at that operation - then reopened and compared with every prefix of the calls that contains the acknowledged ones, up to three crashes in a row; non-trivial: the crash happened before the end of the workload",
		Assume: []string{"a crash keeps exactly the synced data (in memory) or exactly the completed system calls (killed process)"},
	})
}

// crashOp is one step of a crash workload.
type crashOp struct {
	name  string
	run   func(db bond.DB, ts []Tab) error
	model func(ms []*Model)
	sync  bool   // its success is a promise
	reidx [2]int // table and index being rebuilt, index 0: none
}

func crashDefs(r *rand.Rand) []*TDef {
	ids := [][]byte{{1, 2}, {254, 255}, {7, 9}, {1, 255}}[r.Intn(4)]
	var ds []*TDef
	for _, id := range ids {
		d := &TDef{ID: id, PK: PKKind(r.Intn(int(pkKinds))), Ser: []SerKind{serCBOR, serMsgpGen, serProto}[r.Intn(3)]}
		d.Idx = pickIndexes(r, []byte{1, 2, 255}[:1+r.Intn(3)]...)
		ds = append(ds, d)
	}
	return ds
}

// crashWorkload is a function of its random source alone.
func crashWorkload(r *rand.Rand, ds []*TDef, ms []*Model, n int, p *Profile, fresh *uint64, big bool) []crashOp {
	hs := make([]*Hist, len(ds))
	cur := make([]*Model, len(ds))
	for i := range ds {
		cur[i] = ms[i].Clone()
		hs[i] = &Hist{m: cur[i], p: p, r: r, fresh: *fresh}
	}
	var out []crashOp
	for len(out) < n {
		i := r.Intn(len(ds))
		switch k := r.Intn(100); {
		case k < 66:
			sz := 1 + r.Intn(5)
			if big && r.Intn(6) == 0 {
				sz = pick(r, []int{1000, 5001, 6000})
			}
			w := genCall(hs[i], sz, r.Intn(12) == 0)
			if len(w.rows) == 0 {
				continue
			}
			op := crashOp{name: fmt.Sprintf("t%d %s x%d", i, w.name, len(w.rows)), sync: true,
				run: func(db bond.DB, ts []Tab) error {
					err := w.run(bg, ts[i], nil)
					if w.bad {
						if err == nil {
							return fmt.Errorf("%s was accepted", w.name)
						}
						return nil
					}
					return err
				}, model: func(ms []*Model) {
					if !w.bad {
						w.model(ms[i])
					}
				}}
			// only a call that changes something makes the log durable
			was := cloneAll(cur)
			op.model(cur)
			op.sync = op.sync && !sameRows(was, cur)
			out = append(out, op)
		case k < 82:
			sync := r.Intn(4) > 0
			ro := r.Intn(2) == 0
			apply := r.Intn(4) == 0
			type part struct {
				t int
				w writeCall
			}
			var parts []part
			used := map[string]bool{}
			for j := 2 + r.Intn(3); j > 0; j-- {
				t := r.Intn(len(ds))
				w := genCall(hs[t], 1+r.Intn(3), false)
				clash := len(w.rows) == 0 || dupIDs(w.rows)
				for _, x := range w.rows {
					clash = clash || used[fmt.Sprint(t, x.ID)]
				}
				if clash {
					continue
				}
				for _, x := range w.rows {
					used[fmt.Sprint(t, x.ID)] = true
				}
				parts = append(parts, part{t, w})
			}
			if len(parts) == 0 {
				continue
			}
			op := crashOp{name: fmt.Sprintf("batch of %d calls sync=%v", len(parts), sync), sync: sync,
				run: func(db bond.DB, ts []Tab) error {
					typ := bond.BatchTypeReadWrite
					if ro {
						typ = bond.BatchTypeWriteOnly
					}
					b := db.Batch(typ)
					defer b.Close()
					for _, p := range parts {
						if err := p.w.run(bg, ts[p.t], b); err != nil {
							return err
						}
					}
					o := bond.NoSync
					if sync {
						o = bond.Sync
					}
					if apply {
						return db.Apply(b, o)
					}
					return b.Commit(o)
				}, model: func(ms []*Model) {
					for _, p := range parts {
						p.w.model(ms[p.t])
					}
				}}
			// only a call that changes something makes the log durable
			was := cloneAll(cur)
			op.model(cur)
			op.sync = op.sync && !sameRows(was, cur)
			out = append(out, op)
		case k < 87:
			out = append(out, crashOp{name: "flush", run: func(db bond.DB, ts []Tab) error { return db.Backend().Flush() }, model: func([]*Model) {}})
		case k < 90:
			out = append(out, crashOp{name: "compact", run: func(db bond.DB, ts []Tab) error { return db.(interface{ Compact() error }).Compact() }, model: func([]*Model) {}})
		default:
			if len(ds[i].Idx) == 0 {
				continue
			}
			d := pick(r, ds[i].Idx)
			stale := p.rowID(r, 1<<47)
			out = append(out, crashOp{name: fmt.Sprintf("t%d reindex %d", i, d.ID), sync: true, reidx: [2]int{i, int(d.ID)},
				run: func(db bond.DB, ts []Tab) error {
					// the index is damaged before it is rebuilt
					lo, hi := []byte{ds[i].ID, d.ID, 0, 0, 0, 0}, []byte{ds[i].ID, d.ID, 0xff, 0xff, 0xff, 0xff}
					if err := db.DeleteRange(lo, hi, bond.Sync); err != nil {
						return err
					}
					stale := ds[i].idxKey(d, &stale)
					if err := db.Set(stale, nil, bond.Sync); err != nil {
						return err
					}
					return ts[i].ReIndex([]byte{d.ID})
				}, model: func([]*Model) {}})
		}
	}
	*fresh = hs[0].fresh
	for _, h := range hs {
		if h.fresh > *fresh {
			*fresh = h.fresh
		}
	}
	*fresh += 100000
	return out
}

func sameRows(a, b []*Model) bool {
	for i := range a {
		if len(a[i].Rows) != len(b[i].Rows) {
			return false
		}
		for id, x := range a[i].Rows {
			if y, ok := b[i].Rows[id]; !ok || !x.Equal(y) {
				return false
			}
		}
	}
	return true
}

func cloneAll(ms []*Model) []*Model {
	out := make([]*Model, len(ms))
	for i := range ms {
		out[i] = ms[i].Clone()
	}
	return out
}

// recovered finds the prefix the database holds. started is the number of
// operations that were started, acked the number whose success is a promise to
// keep (everything before the last synced success).
func recovered(c *Case, db bond.DB, ds []*TDef, base []*Model, ops []crashOp, acked, started int) []*Model {
	ts := make([]Tab, len(ds))
	for i := range ds {
		ts[i] = newTab(db, ds[i])
	}
	// a rebuild that was cut short is made again first
	if started > 0 && started > acked {
		if x := ops[started-1].reidx; x[1] != 0 {
			// the rows and every other index must be as after a prefix
			e := &Env{c: c, db: db}
			m := cloneAll(base)
			why := ""
			for j := 0; j < started; j++ {
				if j > 0 {
					ops[j-1].model(m)
				}
				if j < acked {
					continue
				}
				bad := ""
				for i := range ds {
					md := *ds[i]
					md.Idx = nil
					for _, d := range ds[i].Idx {
						if i != x[0] || int(d.ID) != x[1] {
							md.Idx = append(md.Idx, d)
						}
					}
					keys := (&Model{&md, m[i].Rows}).ExpectKeys()
					for _, y := range e.dumpTable(ds[i].ID) {
						if i == x[0] && int(y.k[1]) == x[1] {
							continue
						}
						if !keys[string(y.k)] {
							bad = "unexpected " + showKey(y.k)
						}
						delete(keys, string(y.k))
					}
					for k := range keys {
						bad = "missing " + showKey([]byte(k))
					}
				}
				why = bad
				if bad == "" {
					break
				}
			}
			if why != "" {
				c.Fail("crash-reindex", "crash while rebuilding index %d of t%d: %s", x[1], x[0], why)
			}
			if err := ts[x[0]].ReIndex([]byte{byte(x[1])}); err != nil {
				c.Fail("crash-reindex", "rebuilding again after a crash failed: %v", err)
			}
			c.Count("reindex-cut-short", 1)
		}
	}
	got := make([][]Row, len(ds))
	for i := range ds {
		rs, err := ts[i].Scan(bg, false, nil)
		if err != nil {
			c.Fail("crash-scan", "scan after the crash failed: %v", err)
		}
		got[i] = rs
	}
	e := &Env{c: c, db: db}
	var why []string
	m := cloneAll(base)
	for j := 0; j <= started; j++ {
		if j > 0 {
			ops[j-1].model(m)
		}
		if j < acked {
			continue
		}
		bad := ""
		for i := range ds {
			if d := rowsDiff(got[i], m[i].Sorted()); d != "" {
				bad = fmt.Sprintf("t%d rows: %s", i, d)
				break
			}
			if d, x := e.keySpaceDiff(m[i]); d+x != "" {
				bad = fmt.Sprintf("t%d: %s %s", i, d, x)
				break
			}
		}
		if bad == "" {
			c.Count(fmt.Sprintf("recovered-beyond-acked-%d", minI(j-acked, 2)), 1)
			return m
		}
		why = append(why, fmt.Sprintf("not the state after %d calls: %s", j, bad))
	}
	last := "nothing"
	if started > 0 {
		last = ops[started-1].name
	}
	c.Fail("crash-state", "after a crash in %q with %d acknowledged of %d started calls: %s", last, acked, started, strings.Join(why, "; "))
	return nil
}

func runC04(c *Case) {
	if c.R.Intn(10) == 0 {
		runC04Kill(c)
		return
	}
	r := c.R
	mem := vfs.NewStrictMem()
	var mu sync.Mutex
	nOps, crashAt := 0, -1
	crashed := false
	fs := errorfs.Wrap(mem, errorfs.InjectorFunc(func(op errorfs.Op) error {
		if op.Kind.ReadOrWrite() == errorfs.OpIsRead {
			return nil
		}
		mu.Lock()
		if nOps == crashAt && !crashed {
			crashed = true
			mem.SetIgnoreSyncs(true)
		}
		nOps++
		mu.Unlock()
		return nil
	}))
	dir := filepath.Join(c.Dir(), "db")
	cfg := EnvCfg{FS: fs, Dir: dir, MemTable: pick(r, []int{32 << 10, 128 << 10})}
	// the directory of the database survives
	c.Must(mem.MkdirAll(filepath.Dir(dir), 0o755), "mkdir")
	for d := dir; d != "/" && d != "."; d = filepath.Dir(d) {
		if f, err := mem.OpenDir(filepath.Dir(d)); err == nil {
			_ = f.Sync()
			_ = f.Close()
		}
	}
	ds := crashDefs(r)
	base := make([]*Model, len(ds))
	for i := range ds {
		base[i] = newModel(ds[i])
	}
	p := &Profile{IDs: idPool(r, 16), Small: true}
	fresh := uint64(0)
	big := r.Intn(10) == 0
	if !big && r.Intn(12) == 0 {
		// commits of megabytes, more and less than what is kept in memory
		p.Huge = true
		cfg.MemTable = pick(r, []int{128 << 10, 4 << 20, 64 << 20})
	}
	firstOpen := r.Intn(12) == 0
	for round := 0; round < 1+r.Intn(3); round++ {
		e := &Env{c: c, cfg: cfg, dir: dir, fs: fs}
		if round == 0 && firstOpen {
			// crash while the database is being created
			crashAt = r.Intn(25)
			mu.Lock()
			nOps = 0
			mu.Unlock()
		} else {
			crashAt = -1
		}
		if err := e.open(); err != nil {
			c.Fail("open", "Open failed in round %d: %v", round, err)
		}
		n := 8 + r.Intn(14)
		atEnd := p.Huge && r.Intn(3) > 0
		if atEnd {
			n = 1 + r.Intn(5)
		}
		ops := crashWorkload(r, ds, base, n, p, &fresh, big)
		acked, started := 0, 0
		if !(round == 0 && firstOpen) {
			mu.Lock()
			nOps = 0
			crashAt = r.Intn(6 * n)
			if r.Intn(3) == 0 {
				crashAt = r.Intn(n)
			}
			if atEnd {
				// what was acknowledged last is as safe as the rest
				crashAt = -1
			}
			mu.Unlock()
		}
		ts := make([]Tab, len(ds))
		for i := range ds {
			ts[i] = newTab(e.db, ds[i])
		}
		for i := range ops {
			mu.Lock()
			stop := crashed
			mu.Unlock()
			if stop {
				break
			}
			started = i + 1
			err := ops[i].run(e.db, ts)
			mu.Lock()
			if err == nil && !crashed && ops[i].sync {
				acked = i + 1
			}
			stop = crashed
			mu.Unlock()
			c.Logf("%s -> %v", ops[i].name, err)
			if err != nil && !stop {
				c.Fail("call", "%s failed without a fault: %v", ops[i].name, err)
			}
		}
		mu.Lock()
		was := crashed
		crashed = true
		mem.SetIgnoreSyncs(true)
		mu.Unlock()
		if was {
			c.Nontrivial()
			c.Count("crashes", 1)
		} else {
			c.Count("crash-at-end", 1)
		}
		c.Logf("crash at operation %d", crashAt)
		func() {
			defer func() { _ = recover() }()
			_ = e.db.Close()
		}()
		mem.ResetToSyncedState()
		mem.SetIgnoreSyncs(false)
		mu.Lock()
		crashed, crashAt = false, -1
		mu.Unlock()
		if err := e.open(); err != nil {
			c.Fail("crash-open", "reopening after a crash failed: %v", err)
		}
		base = recovered(c, e.db, ds, base, ops, acked, started)
		c.Eval(1)
		// the recovered database accepts work and closes
		fresh++
		x := p.rowID(r, 1<<46+fresh)
		t := newTab(e.db, ds[0])
		if err := t.Insert(bg, []Row{x}, nil); err != nil {
			c.Fail("crash-use", "insert after recovery failed: %v", err)
		}
		base[0].Put([]Row{x})
		if err := e.db.Close(); err != nil {
			c.Fail("crash-close", "Close after recovery failed: %v", err)
		}
	}
	// everything is there after a clean stop
	e := &Env{c: c, cfg: cfg, dir: dir, fs: fs}
	if err := e.open(); err != nil {
		c.Fail("open", "the last Open failed: %v", err)
	}
	defer e.db.Close()
	recovered(c, e.db, ds, base, nil, 0, 0)
}

// ---- killed processes ----

func runC04Kill(c *Case) {
	r := c.R
	dir := filepath.Join(c.Dir(), "db")
	seed := r.Int63()
	self, _ := os.Executable()
	nOps := 12
	n := 40 + r.Intn(3)
	_ = n
	at := r.Intn(70)
	ackPath := filepath.Join(filepath.Dir(dir), "acks")
	ctx, cancel := context.WithTimeout(bg, 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "-tool", "crash-child", dir, fmt.Sprint(seed), fmt.Sprint(at), fmt.Sprint(nOps), ackPath)
	out, err := cmd.CombinedOutput()
	killed := false
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			killed = true
		}
	}
	if err != nil && !killed {
		c.Fail("child", "the workload failed before the crash: %v %s", err, clip(string(out), 3000))
	}
	acked, started := 0, 0
	if f, err := os.Open(ackPath); err == nil {
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			fs := strings.Fields(sc.Text())
			if len(fs) != 2 {
				continue
			}
			v, _ := strconv.Atoi(fs[1])
			if fs[0] == "start" {
				started = v
			} else {
				acked = v
			}
		}
		_ = f.Close()
	}
	cr := rand.New(rand.NewSource(seed))
	ds, base, p, ops := killSetup(cr, nOps)
	_ = p
	c.Logf("child killed=%v at %d, acked %d started %d", killed, at, acked, started)
	for i, o := range ops {
		if i < started {
			c.Logf("%s", o.name)
		}
	}
	db, err := bond.Open(dir, &bond.Options{PebbleOptions: (&EnvCfg{MemTable: 64 << 10}).pebbleOptions(vfs.Default)})
	if err != nil {
		c.Fail("crash-open", "reopening after SIGKILL failed: %v", err)
	}
	defer db.Close()
	if killed {
		c.Nontrivial()
		c.Count("kills", 1)
	}
	c.Eval(1)
	m := recovered(c, db, ds, base, ops, acked, started)
	t := newTab(db, ds[0])
	x := Row{ID: 1 << 47}
	if err := t.Insert(bg, []Row{x}, nil); err != nil {
		c.Fail("crash-use", "insert after recovery failed: %v", err)
	}
	m[0].Put([]Row{x})
	recovered(c, db, ds, m, nil, 0, 0)
}

func killSetup(r *rand.Rand, n int) ([]*TDef, []*Model, *Profile, []crashOp) {
	ds := crashDefs(r)
	base := make([]*Model, len(ds))
	for i := range ds {
		base[i] = newModel(ds[i])
	}
	p := &Profile{IDs: idPool(r, 12), Small: true}
	fresh := uint64(0)
	return ds, base, p, crashWorkload(r, ds, base, n, p, &fresh, r.Intn(8) == 0)
}

// crashChild runs the workload and kills itself at a file-system operation.
func crashChild(args []string) {
	dir := args[0]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	at, _ := strconv.Atoi(args[2])
	n, _ := strconv.Atoi(args[3])
	acks, err := os.OpenFile(args[4], os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		panic(err)
	}
	ds, _, _, ops := killSetup(rand.New(rand.NewSource(seed)), n)
	var mu sync.Mutex
	count := 0
	fs := errorfs.Wrap(vfs.Default, errorfs.InjectorFunc(func(op errorfs.Op) error {
		if op.Kind.ReadOrWrite() == errorfs.OpIsRead {
			return nil
		}
		mu.Lock()
		defer mu.Unlock()
		if count == at {
			_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
			select {}
		}
		count++
		return nil
	}))
	db, err := bond.Open(dir, &bond.Options{PebbleOptions: (&EnvCfg{MemTable: 64 << 10}).pebbleOptions(fs)})
	if err != nil {
		panic(err)
	}
	ts := make([]Tab, len(ds))
	for i := range ds {
		ts[i] = newTab(db, ds[i])
	}
	for i, o := range ops {
		fmt.Fprintf(acks, "start %d\n", i+1)
		if err := o.run(db, ts); err != nil {
			fmt.Println(o.name, err)
			os.Exit(3)
		}
		if o.sync {
			fmt.Fprintf(acks, "ack %d\n", i+1)
		}
	}
	if err := db.Close(); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
}
