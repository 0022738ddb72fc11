package main

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C13", Level: "exploration", Race: true, Quick: 600, Thorough: 12000, Run: runC13,
		Rule: "histories and concurrent workers (each owning its rows) on a table with a bloom filter of random size, bucket count and rate, or with a filter that contains nothing but what was added, initialized before, during or after the work; every lookup, refusal and conflict compared with a map without a filter; bloom filters driven directly by concurrent adders and readers; non-trivial: lookups answered by an initialized filter for rows present and absent",
	})
}

// exactFilter is a filter without false positives.
type exactFilter struct {
	mu     sync.RWMutex
	m      map[string]bool
	yields bool
}

func newExactFilter() *exactFilter { return &exactFilter{m: map[string]bool{}} }

func (f *exactFilter) Add(_ context.Context, k []byte) {
	if f.yields {
		runtime.Gosched()
	}
	f.mu.Lock()
	f.m[string(k)] = true
	f.mu.Unlock()
}
func (f *exactFilter) MayContain(_ context.Context, k []byte) bool {
	f.mu.RLock()
	defer f.mu.RUnlock()
	return f.m[string(k)]
}
func (f *exactFilter) Load(context.Context, bond.FilterStorer) error  { return fmt.Errorf("not saved") }
func (f *exactFilter) Save(context.Context, bond.FilterStorer) error  { return nil }
func (f *exactFilter) Clear(context.Context, bond.FilterStorer) error { return nil }

// mapStore is a filter store in memory.
type mapStore struct {
	mu   sync.Mutex
	m    map[string][]byte
	fail func(op string, k []byte) error
	ops  int
}

func newMapStore() *mapStore { return &mapStore{m: map[string][]byte{}} }

func (s *mapStore) op(n string, k []byte) error {
	s.ops++
	if s.fail != nil {
		return s.fail(n, k)
	}
	return nil
}
func (s *mapStore) Get(k []byte, _ ...bond.Batch) ([]byte, io.Closer, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.op("get", k); err != nil {
		return nil, nil, err
	}
	v, ok := s.m[string(k)]
	if !ok {
		return nil, nil, pebble.ErrNotFound
	}
	return append([]byte(nil), v...), io.NopCloser(nil), nil
}
func (s *mapStore) Set(k, v []byte, _ bond.WriteOptions, _ ...bond.Batch) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.op("set", k); err != nil {
		return err
	}
	s.m[string(k)] = append([]byte(nil), v...)
	return nil
}
func (s *mapStore) DeleteRange(a, b []byte, _ bond.WriteOptions, _ ...bond.Batch) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.op("delete", a); err != nil {
		return err
	}
	for k := range s.m {
		if k >= string(a) && k < string(b) {
			delete(s.m, k)
		}
	}
	return nil
}

// countFilter counts the answers of a filter.
type countFilter struct {
	bond.Filter
	yes, no atomic.Int64
	delay   bool
}

func (f *countFilter) MayContain(ctx context.Context, k []byte) bool {
	v := f.Filter.MayContain(ctx, k)
	if v {
		f.yes.Add(1)
	} else {
		f.no.Add(1)
	}
	return v
}

func (f *countFilter) Add(ctx context.Context, k []byte) {
	if f.delay && k[len(k)-1]%4 == 0 {
		time.Sleep(20 * time.Microsecond)
	}
	f.Filter.Add(ctx, k)
}

func anyFilter(r *rand.Rand) bond.Filter {
	if r.Intn(3) == 0 {
		return &exactFilter{m: map[string]bool{}, yields: r.Intn(2) == 0}
	}
	return newBloom(r)
}

func runC13(c *Case) {
	switch k := c.R.Intn(10); {
	case k < 3:
		c13Direct(c)
	case k < 6:
		c13History(c)
	default:
		c13Workers(c)
	}
}

// c13Direct drives a filter from many goroutines.
func c13Direct(c *Case) {
	r := c.R
	var f bond.Filter = newBloom(r)
	bf := f
	lazy := r.Intn(2) == 0
	if lazy {
		f = &bond.FilterInitializable{Filter: f}
	}
	st := newMapStore()
	if r.Intn(3) == 0 {
		// something to load: a save of an equal filter is not available here,
		// so initialization finds nothing
		st.m["other"] = []byte{1}
	}
	n, per := 2+r.Intn(6), 20+r.Intn(150)
	key := func(g, i int) []byte { return specKey(byte(1+g%3), 0, nil, nil, beN(uint64(g)<<32|uint64(i), 8)) }
	var done [16]atomic.Int64
	save := r.Intn(2) == 0
	at := r.Intn(n * per)
	var total atomic.Int64
	c.Par(n+1, func(g int, r *rand.Rand) {
		if g == n { // initialization and saves in between
			for int(total.Load()) < at {
				runtime.Gosched()
			}
			if lazy {
				if err := f.(*bond.FilterInitializable).Initialize(bg, st, nil); err != nil {
					c.Fail("init", "Initialize: %v", err)
				}
			}
			if save {
				if err := f.Save(bg, st); err != nil {
					c.Fail("save", "Save: %v", err)
				}
				if err := bf.Load(bg, st); err != nil {
					c.Fail("load", "Load of what was just saved: %v", err)
				}
			}
			return
		}
		for i := 0; i < per; i++ {
			f.Add(bg, key(g, i))
			done[g].Store(int64(i + 1))
			total.Add(1)
			// own and others' keys
			for k := 0; k < 3; k++ {
				o := r.Intn(n)
				if d := int(done[o].Load()); d > 0 {
					i := r.Intn(d)
					if !f.MayContain(bg, key(o, i)) {
						c.Fail("hidden", "a key added before the lookup started is reported absent (goroutine %d, key %d)", o, i)
					}
				}
			}
		}
	})
	for g := 0; g < n; g++ {
		for i := 0; i < per; i++ {
			if !f.MayContain(bg, key(g, i)) || !bf.MayContain(bg, key(g, i)) {
				c.Fail("hidden", "key %d of goroutine %d was added and is reported absent", i, g)
			}
		}
	}
	c.Logf("direct: %d goroutines, %d keys each, lazy %v save %v", n, per, lazy, save)
	c.Count("direct-keys", n*per)
	c.Eval(n * per)
	c.Nontrivial()
}

// c13History is a sequential history compared with a map.
func c13History(c *Case) {
	r := c.R
	def := randTDef(c, pick(r, []byte{1, 3, 255}), r.Intn(3))
	cf := &countFilter{Filter: anyFilter(r)}
	lazy := &bond.FilterInitializable{Filter: cf}
	inits := r.Intn(3) // 0: at once, 1: in the middle, 2: never wrapped
	def.Filter = lazy
	if inits == 2 {
		def.Filter = cf
	}
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR)})
	t := newTab(e.db, def)
	h := &Hist{c: c, e: e, t: t, m: newModel(def), r: r, batch: true, unsaf: true,
		p: &Profile{IDs: idPool(r, 6+r.Intn(30)), Small: r.Intn(2) == 0, Zero: 50}}
	c.Logf("history: filter %T, init %d, ser %v pk %v", cf.Filter, inits, def.Ser, def.PK)
	if r.Intn(30) == 0 {
		h.bulk = 10
	}
	init := func() {
		if err := lazy.Initialize(bg, e.db, []bond.TableScanner[any]{h.t.AnyScanner()}); err != nil {
			c.Fail("init", "Initialize: %v", err)
		}
	}
	if inits == 0 {
		init()
	}
	steps := 30
	at := r.Intn(steps)
	for i := 0; i < steps; i++ {
		if inits == 1 && i == at {
			init()
		}
		if inits != 2 && r.Intn(25) == 0 {
			// restart: the filter starts empty, not initialized
			e.reopen()
			cf.Filter = anyFilter(r)
			lazy = &bond.FilterInitializable{Filter: cf}
			def.Filter = lazy
			h.t = newTab(e.db, def)
			c.Logf("restart")
			inits, at = 1, i+1+r.Intn(6)
			if at >= steps {
				at = steps - 1
			}
		}
		h.step(c.Fail)
		h.checkPoints(5)
		if r.Intn(4) == 0 {
			h.c13Batch()
		}
	}
	h.checkScan()
	if _, ix := e.keySpaceDiff(h.m); ix != "" {
		c.Fail("index", "%s", ix)
	}
	if cf.yes.Load() > 0 && cf.no.Load() > 0 {
		c.Nontrivial()
	}
	c.Count("filter-yes", int(cf.yes.Load()))
	c.Count("filter-no", int(cf.no.Load()))
}

// c13Batch looks rows up through a batch that holds some of them.
func (h *Hist) c13Batch() {
	c, r := h.c, h.r
	b := h.e.db.Batch(bond.BatchTypeReadWrite)
	defer b.Close()
	over := h.m.Clone()
	for k := 1 + r.Intn(3); k > 0; k-- {
		switch r.Intn(3) {
		case 0:
			rs := h.absent(1 + r.Intn(3))
			var fr []Row
			for _, x := range rs {
				if _, ok := over.Rows[x.ID]; !ok {
					fr = append(fr, x)
				}
			}
			if len(fr) == 0 {
				continue
			}
			if err := h.t.Insert(bg, fr, b); err != nil {
				c.Fail("batch", "insert of new rows through a batch: %v", err)
			}
			over.Put(fr)
		case 1:
			x := h.p.row(r)
			if err := h.t.Upsert(bg, []Row{x}, foldSum, b); err != nil {
				c.Fail("batch", "upsert through a batch: %v", err)
			}
			over.Upsert([]Row{x}, foldSum)
		default:
			x := h.p.row(r)
			_, ok := over.Rows[x.ID]
			err := h.t.Update(bg, []Row{x}, b)
			if (err == nil) != ok {
				c.Fail("batch", "update through a batch of row %d, present %v: %v", x.ID, ok, err)
			}
			if ok {
				over.Put([]Row{x})
			}
		}
	}
	for _, id := range h.p.IDs {
		want, ok := over.Rows[id]
		p := h.p.rowID(r, id)
		if got := h.t.Exist(p, b); got != ok {
			c.Fail("batch", "Exist(%d) through the batch = %v, want %v", id, got, ok)
		}
		got, err := h.t.GetPoint(bg, p, b)
		h.point("GetPoint through a batch", p, got, err, want, ok)
		if ok && r.Intn(4) == 0 {
			if err := h.t.Insert(bg, []Row{p}, b); err == nil {
				c.Fail("batch", "row %d inserted twice through the batch", id)
			}
		}
	}
	if r.Intn(2) == 0 {
		if err := b.Commit(bond.Sync); err != nil {
			c.Fail("batch", "commit: %v", err)
		}
		h.m.Rows = over.Rows
	}
	c.Count("batches", 1)
}

// c13Workers runs workers that own their rows.
func c13Workers(c *Case) {
	r := c.R
	def := randTDef(c, 1, r.Intn(3))
	def.Prefetch = pick(r, []int{0, 1, 3, 100})
	cf := &countFilter{Filter: anyFilter(r), delay: r.Intn(3) == 0}
	lazy := &bond.FilterInitializable{Filter: cf}
	def.Filter = lazy
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR)})
	t := newTab(e.db, def)
	n := 2 + r.Intn(5)
	models := make([]*Model, n)
	profs := make([]*Profile, n)
	old := 0
	for g := range models {
		models[g] = newModel(def)
		profs[g] = &Profile{Small: true, Zero: 60}
		for i := 0; i < 12; i++ {
			profs[g].IDs = append(profs[g].IDs, uint64(i*n+g))
		}
		// rows of an earlier run
		var rs []Row
		for _, id := range profs[g].IDs {
			if r.Intn(3) == 0 {
				rs = append(rs, profs[g].rowID(r, id))
			}
		}
		if len(rs) > 0 {
			c.Must(t.Insert(bg, rs, nil), "insert")
			models[g].Put(rs)
			old += len(rs)
		}
	}
	if r.Intn(2) == 0 {
		e.reopen()
		cf.Filter = anyFilter(r)
		lazy = &bond.FilterInitializable{Filter: cf}
		def.Filter = lazy
		t = newTab(e.db, def)
	}
	c.Logf("%d workers, filter %T, %d old rows, ser %v", n, cf.Filter, old, def.Ser)
	var acts atomic.Int64
	rounds := 15 + r.Intn(25)
	at := int64(r.Intn(n * rounds))
	if r.Intn(3) == 0 {
		at = 0
	}
	c.Par(n+1, func(g int, r *rand.Rand) {
		if g == n {
			for acts.Load() < at {
				runtime.Gosched()
			}
			if err := lazy.Initialize(bg, e.db, []bond.TableScanner[any]{t.AnyScanner()}); err != nil {
				c.Fail("init", "Initialize: %v", err)
			}
			if r.Intn(2) == 0 {
				if err := lazy.Save(bg, e.db); err != nil {
					c.Fail("save", "Save: %v", err)
				}
			}
			return
		}
		h := &Hist{c: c, e: e, t: t, m: models[g], r: r, p: profs[g], batch: true, unsaf: true}
		// a failing worker must not keep the initializer waiting
		defer acts.Add(1 << 40)
		for i := 0; i < rounds; i++ {
			acts.Add(1)
			h.step(c.Fail)
			h.c13Points()
			if r.Intn(8) == 0 {
				h.c13Batch()
			}
		}
	})
	all := newModel(def)
	for _, m := range models {
		for k, v := range m.Rows {
			all.Rows[k] = v
		}
	}
	h := &Hist{c: c, e: e, t: t, m: all, r: r, p: &Profile{IDs: []uint64{0}}}
	h.checkScan()
	if _, ix := e.keySpaceDiff(all); ix != "" {
		c.Fail("index", "%s", ix)
	}
	for _, x := range all.Rows {
		if x := x; !lazy.MayContain(bg, def.dataKey(&x)) {
			c.Fail("hidden", "the filter reports the live row %d absent", x.ID)
		}
	}
	if cf.yes.Load() > 0 && cf.no.Load() > 0 {
		c.Nontrivial()
	}
	c.Count("workers", n)
	c.Count("filter-yes", int(cf.yes.Load()))
	c.Count("filter-no", int(cf.no.Load()))
}

// c13Points looks up the rows a worker owns.
func (h *Hist) c13Points() {
	c, r := h.c, h.r
	var pts []Row
	for k := 0; k < 4; k++ {
		pts = append(pts, Row{ID: pick(r, h.p.IDs)})
	}
	for _, p := range pts {
		want, ok := h.m.Rows[p.ID]
		if got := h.t.Exist(p, nil); got != ok {
			c.Fail("exist", "Exist(%d) = %v, the map says %v", p.ID, got, ok)
		}
		got, err := h.t.GetPoint(bg, p, nil)
		h.point("GetPoint", p, got, err, want, ok)
	}
	rs, oks, err := h.t.Get(bg, Sel{Kind: selPoints, Rows: pts}, nil)
	if err != nil || len(rs) != len(pts) {
		c.Fail("get-points", "Get(points): %d rows, %v", len(rs), err)
	}
	for i, p := range pts {
		want, ok := h.m.Rows[p.ID]
		if !ok && oks[i] || ok && !rs[i].Equal(want) {
			c.Fail("get-points", "Get(points) at %d: got %v (%v), want %v (%v)", i, rs[i], oks[i], want, ok)
		}
	}
	c.Eval(len(pts))
}
