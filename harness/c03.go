package main

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C03", Level: "fault_enumeration", Quick: 1400, Thorough: 12000, Run: runC03,
		Rule: "one write call of 1 to 12000 rows with a failure at a drawn (small calls: at every) position - refused row, serializer error or panic, panicking key/order/filter/conflict function, cancelled context, refused storage write or commit, read-only storage - compared with the raw key space before it; key space and a concurrent snapshot observed during the call; non-trivial: the failure happened or a snapshot was taken during the call",
	})
}

var errInjected = fmt.Errorf("injected failure")

func runC03(c *Case) {
	r := c.R
	def := randTDef(c, pick(r, []byte{1, 7, 254, 255}), r.Intn(4))
	var delay time.Duration
	mode := r.Intn(10)
	cfg := EnvCfg{Ser: newSerializer(serCBOR)}
	if mode == 0 {
		cfg.FS = slowSyncFS(vfs.NewMem(), &delay)
	}
	e := newEnv(c, cfg)
	// the table is always built with a hook
	var hook func(site string) error
	def.Hook = func(site string) error {
		if hook != nil {
			return hook(site)
		}
		return nil
	}
	t := newTab(e.db, def)
	if r.Intn(4) == 0 {
		def.addFilter(c)
		t = newTab(e.db, def)
		def.initFilter(c, e, t)
	}
	big := r.Intn(8) == 0
	h := &Hist{c: c, e: e, t: t, m: newModel(def), r: r, p: &Profile{IDs: idPool(r, 20), Small: r.Intn(2) == 0}}
	if big {
		var rs []Row
		for i := 0; i < 6000; i++ {
			h.fresh++
			h.p.IDs = append(h.p.IDs, 1<<43+h.fresh)
			rs = append(rs, h.slim(1<<43+h.fresh))
		}
		if err := t.Insert(bg, rs, nil); err != nil {
			c.Fail("insert", "insert of 6000 rows failed: %v", err)
		}
		h.m.Put(rs)
	}
	seed := h.absent(10)
	if err := t.Insert(bg, seed, nil); err != nil {
		c.Fail("insert", "insert failed: %v", err)
	}
	h.m.Put(seed)
	c.Logf("table %d pk=%v ser=%v indexes=%d filter=%v", def.ID, def.PK, def.Ser, len(def.Idx), def.Filter != nil)
	// calls of many megabytes
	heavy := 0
	if big && r.Intn(3) > 0 {
		heavy = pick(r, []int{3, 6, 10, 20, 40})
		def.Prefetch = 1
	}
	size := func() int {
		if heavy > 0 {
			n := pick(r, []int{300, 5500, 6000, 10001})
			h.pad = heavy << 20 / n
			c.Count("heavy-calls", 1)
			return n
		}
		if big {
			return pick(r, []int{2, 5000, 5001, 5100, 9999, 10001, 12000})
		}
		return 1 + r.Intn(7)
	}
	switch {
	case mode == 0:
		c03Observe(c, h, &delay, size)
	case mode == 1:
		c03ReadOnly(c, h, size)
	default:
		rounds := 10
		if big {
			rounds = 3
		}
		if heavy > 0 {
			rounds = 2
		}
		for i := 0; i < rounds; i++ {
			if r.Intn(6) == 0 {
				c03Storage(c, h, size(), big)
			} else {
				c03Fault(c, h, size(), big, &hook)
			}
		}
	}
}

// settle compares the state after a call with what its result promises.
func c03Settle(c *Case, h *Hist, w writeCall, before []kv, err error, what string) {
	if err != nil {
		if d := diffKV(before, h.e.dumpAll()); d != "" {
			c.Fail("partial-effect", "%s of %s (%s) returned %q but changed the database: %s", w.name, ids(w.rows), what, err, d)
		}
		return
	}
	m := h.m.Clone()
	w.model(m)
	if d, i := h.e.keySpaceDiff(m); d+i != "" {
		c.Fail("partial-success", "%s of %s (%s) returned success: %s %s", w.name, ids(w.rows), what, d, i)
	}
	rows, err := h.t.Scan(bg, false, nil)
	if err != nil {
		c.Fail("scan", "Scan: %v", err)
	}
	if d := rowsDiff(rows, m.Sorted()); d != "" {
		c.Fail("partial-success", "%s of %s (%s) returned success: %s", w.name, ids(w.rows), what, d)
	}
	h.m = m
}

func c03Fault(c *Case, h *Hist, n int, big bool, hook *func(string) error) {
	r := h.r
	kind := pick(r, []string{"refuse", "ser", "deser", "panic", "ctx", "ctx", "cancel-in-callback", "none"})
	w := genCall(h, n, kind == "refuse")
	before := h.e.dumpAll()
	// learn how many calls of each kind the operation makes by making it on a
	// batch that is thrown away
	counts := map[string]int{}
	var total []string
	*hook = func(site string) error { counts[site]++; total = append(total, site); return nil }
	tc := newTickCtx(-1, context.Canceled)
	b := h.e.db.Batch(bond.BatchTypeReadWrite)
	_ = w.run(tc, h.t, b)
	_ = b.Close()
	*hook = nil
	if d := diffKV(before, h.e.dumpAll()); d != "" {
		c.Fail("partial-effect", "%s through a batch that was closed changed the database: %s", w.name, d)
	}
	ticks := tc.count()
	one := func(at int) {
		var ctx context.Context = bg
		what := kind
		fired := false
		calls := 0
		switch kind {
		case "ser", "deser":
			if counts[kind] == 0 {
				return
			}
			k := at % counts[kind]
			what = fmt.Sprintf("%s error at %d of %d", kind, k, counts[kind])
			*hook = func(site string) error {
				if site == kind {
					calls++
					if calls-1 == k {
						fired = true
						return errInjected
					}
				}
				return nil
			}
		case "panic":
			if len(total) == 0 {
				return
			}
			k := at % len(total)
			what = fmt.Sprintf("panic in %s, call-back %d of %d", total[k], k, len(total))
			*hook = func(site string) error {
				calls++
				if calls-1 == k {
					fired = true
					panic(userPanic{"user function"})
				}
				return nil
			}
		case "ctx":
			k := 0
			if ticks > 0 {
				k = at % (ticks + 1)
			}
			what = fmt.Sprintf("context cancelled at look %d of %d", k, ticks)
			x := newTickCtx(k, pick(r, []error{context.Canceled, context.DeadlineExceeded}))
			ctx = x
			defer func() {
				if x.cancelled() {
					c.Count("cancelled", 1)
				}
			}()
		case "cancel-in-callback":
			if len(total) == 0 {
				return
			}
			k := at % len(total)
			what = fmt.Sprintf("context cancelled in %s, call-back %d of %d", total[k], k, len(total))
			cc, cancel := context.WithCancel(bg)
			defer cancel()
			ctx = cc
			*hook = func(site string) error {
				calls++
				if calls-1 == k {
					fired = true
					cancel()
				}
				return nil
			}
		}
		inner := *hook
		looks := 0
		seenAt := map[int]bool{0: true, len(total) - 1: true, len(total) / 2: true, len(total) * 5 / 6: true}
		pos := -1
		*hook = func(site string) error {
			pos++
			if seenAt[pos] {
				looks++
				if d := diffKV(before, h.e.dumpAll()); d != "" {
					c.Fail("visible-early", "%s of %s shows a part of it while running (call-back %d): %s", w.name, ids(w.rows), pos, d)
				}
			}
			if inner != nil {
				return inner(site)
			}
			return nil
		}
		err, panicked := protect(func() error { return w.run(ctx, h.t, nil) })
		*hook = nil
		c.Count("mid-call-looks", looks)
		c.Eval(1)
		c.Logf("%s of %d rows: %s -> %v", w.name, len(w.rows), what, err)
		c.Count("fault-"+kind, 1)
		if fired || err != nil {
			c.Nontrivial()
		}
		if panicked {
			c.Count("panics", 1)
		}
		if fired && kind == "panic" && !panicked && err == nil {
			c.Fail("swallowed", "%s: %s was swallowed", w.name, what)
		}
		c03Settle(c, h, w, before, err, what)
	}
	if big || kind == "none" || kind == "refuse" {
		one(r.Intn(1 << 30))
	} else {
		// every position, until the call succeeds
		max := map[string]int{"ser": counts["ser"], "deser": counts["deser"], "panic": len(total), "cancel-in-callback": len(total), "ctx": ticks + 1}[kind]
		if max > 40 {
			max = 40
		}
		m0 := h.m
		for at := 0; at < max; at++ {
			one(at)
			if h.m != m0 {
				break
			}
		}
	}
	// the table is still usable
	if h.t.Exist(Row{ID: 1<<50 + uint64(c.Idx)}, nil) {
		c.Fail("exist", "a row that was never written exists")
	}
	x := h.slim(1<<45 + h.fresh)
	h.fresh++
	if err := h.t.Insert(bg, []Row{x}, nil); err != nil {
		c.Fail("stuck", "insert after a failed %s failed: %v", w.name, err)
	}
	h.m.Put([]Row{x})
}

// c03Storage refuses one of the writes a call makes to the storage: at every
// position for small calls.
func c03Storage(c *Case, h *Hist, n int, big bool) {
	r := h.r
	w := genCall(h, n, false)
	p := &failPlan{}
	t := newTab(&failDB{h.e.db, p}, h.m.Def)
	before := h.e.dumpAll()
	// count them on a batch that is thrown away
	p.start(-1, false, nil)
	b := &failBatch{h.e.db.Batch(bond.BatchTypeReadWrite), p}
	if err := w.run(bg, h.t, b); err != nil {
		c.Fail("error", "%s of %s in a batch failed: %v", w.name, ids(w.rows), err)
	}
	_ = b.Close()
	total, _ := p.count()
	one := func(at int) {
		sticky, own := r.Intn(2) == 0, r.Intn(3) == 0
		p.start(at, sticky, errInjected)
		var err error
		if own {
			b := &failBatch{h.e.db.Batch(pick(r, []bond.BatchType{bond.BatchTypeReadWrite, bond.BatchTypeWriteOnly})), p}
			defer func() { _ = b.Close() }()
			err = w.run(bg, h.t, b)
		} else {
			err = w.run(bg, t, nil)
		}
		_, fired := p.count()
		c.Eval(1)
		c.Logf("%s of %d rows, storage write %d of %d refused (%s, sticky %v, own batch %v) -> %v", w.name, len(w.rows), at, total, p.last, sticky, own, err)
		c.Count("refused-storage-writes", fired)
		if fired > 0 {
			c.Nontrivial()
		}
		what := fmt.Sprintf("storage write %d of %d refused: %s", at, total, p.last)
		if fired > 0 && err == nil {
			c.Fail("lost-error", "%s of %s (%s, own batch %v) returned success", w.name, ids(w.rows), what, own)
		}
		if own {
			if d := diffKV(before, h.e.dumpAll()); d != "" {
				c.Fail("partial-effect", "%s of %s (%s) through a batch that wasn't committed changed the database: %s", w.name, ids(w.rows), what, d)
			}
			return
		}
		c03Settle(c, h, w, before, err, what)
	}
	m0 := h.m
	if big {
		one(r.Intn(total + 1))
		return
	}
	for at := 0; at <= minI(total, 40) && h.m == m0; at++ {
		one(at)
	}
}

// c03ReadOnly makes every kind of call on a database that refuses to commit.
func c03ReadOnly(c *Case, h *Hist, size func() int) {
	before := h.e.dumpAll()
	if err := h.e.close(); err != nil {
		c.Fail("close", "Close failed: %v", err)
	}
	o := h.e.cfg.pebbleOptions(h.e.fs)
	o.ReadOnly = true
	db, err := bond.Open(h.e.dir, &bond.Options{PebbleOptions: o})
	if err != nil {
		c.Harness("read-only open: %v", err)
	}
	h.e.db = db
	def := h.m.Def
	def.Filter = nil
	h.t = newTab(db, def)
	for i := 0; i < 12; i++ {
		w := genCall(h, size(), h.r.Intn(5) == 0)
		if len(w.rows) == 0 {
			continue
		}
		err := w.run(bg, h.t, nil)
		c.Eval(1)
		c.Logf("read-only %s of %d rows -> %v", w.name, len(w.rows), err)
		c.Count("commit-failures", 1)
		if err == nil {
			c.Fail("lost-error", "%s of %s returned success although the storage refused the commit", w.name, ids(w.rows))
		}
		if d := diffKV(before, h.e.dumpAll()); d != "" {
			c.Fail("partial-effect", "%s whose commit failed changed the database: %s", w.name, d)
		}
		c.Nontrivial()
	}
}

// c03Observe takes snapshots while calls run on a slow log.
func c03Observe(c *Case, h *Hist, delay *time.Duration, size func() int) {
	for i := 0; i < 4; i++ {
		w := genCall(h, size()+2, false)
		if len(w.rows) == 0 {
			continue
		}
		after := h.m.Clone()
		w.model(after)
		b, a := h.m.ExpectKeys(), after.ExpectKeys()
		// the call is visible when the first of these keys is
		var add, del []string
		for k := range a {
			if !b[k] {
				add = append(add, k)
			}
		}
		for k := range b {
			if !a[k] {
				del = append(del, k)
			}
		}
		if len(add) > 40 {
			add = append(add[:20], add[len(add)-20:]...)
		}
		if len(del) > 40 {
			del = append(del[:20], del[len(del)-20:]...)
		}
		var stop atomic.Bool
		var bad atomic.Value
		var snaps, mid int
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				s := h.e.db.Backend().NewSnapshot()
				na, nd := 0, 0
				has := func(k string) bool {
					_, cl, err := s.Get([]byte(k))
					if err == nil {
						_ = cl.Close()
					} else if err != pebble.ErrNotFound {
						bad.Store("snapshot read: " + err.Error())
					}
					return err == nil
				}
				for _, k := range add {
					if has(k) {
						na++
					}
				}
				for _, k := range del {
					if !has(k) {
						nd++
					}
				}
				_ = s.Close()
				snaps++
				if na+nd > 0 {
					mid++
				}
				if (na > 0 || nd > 0) && (na < len(add) || nd < len(del)) {
					bad.Store(fmt.Sprintf("a snapshot during %s of %s has %d of %d new and lacks %d of %d old keys", w.name, ids(w.rows), na, len(add), nd, len(del)))
					return
				}
			}
		}()
		*delay = 2 * time.Millisecond
		err := w.run(bg, h.t, nil)
		time.Sleep(time.Millisecond)
		stop.Store(true)
		wg.Wait()
		*delay = 0
		c.Eval(snaps)
		c.Count("snapshots", snaps)
		c.Count("snapshots-after-visible", mid)
		c.Logf("observed %s of %d rows -> %v, %d snapshots", w.name, len(w.rows), err, snaps)
		if x := bad.Load(); x != nil {
			c.Fail("torn", "%s", x)
		}
		if err != nil {
			c.Fail("call", "%s failed: %v", w.name, err)
		}
		c.Nontrivial()
		h.m = after
	}
}
