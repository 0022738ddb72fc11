package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C22", Level: "fault_enumeration", Quick: 3000, Thorough: 60000, Run: runC22,
		Rule: "sequences of life-cycle calls on several batches at once: registering call-backs of all kinds (succeeding, failing, writing, registering others), writes, commits directly and through the database that succeed or are refused by the storage (read-only, synchronous commit without log), applies onto other batches that succeed or fail, resets, closes; the log of calls with batch, error and the data visible at each compared with the expected log; close call-backs of the database; non-trivial: call-backs of at least three kinds fired",
	})
}

type cbSpec struct {
	id   int
	kind string // commit committed error close
	fail error
	key  string // commit: written by the call-back
	reg  *cbSpec
	when int // fails at this call only, 0: always
	n    int
}

type c22Batch struct {
	id      int
	b       bond.Batch
	rw      bool
	cbs     map[string][]*cbSpec
	order   []string // pending writes
	pend    map[string]string
	ident   uint64
	closed  bool
	spoiled bool
	rows    int
}

type c22 struct {
	c     *Case
	e     *Env
	r     *rand.Rand
	db    map[string]string // committed user keys
	cur   *c22Batch         // in a life-cycle call
	into  *c22Batch         // receiving batch
	log   []string
	err   error // given to the error call-backs
	n     int
	pre   string
	ro    bool
	noWAL bool
	fired map[string]bool
	tab   Tab
	next  uint64
}

func runC22(c *Case) {
	r := c.R
	x := &c22{c: c, r: r, db: map[string]string{}, pre: "k", fired: map[string]bool{}}
	cfg := EnvCfg{Ser: newSerializer(serCBOR), FS: vfs.NewMem()}
	x.noWAL = r.Intn(3) == 0
	x.e = newEnv(c, cfg)
	for i := 0; i < 5; i++ {
		x.db[fmt.Sprint("k", i)] = "old"
		c.Must(x.e.db.Set(bond.NewUserKey(fmt.Sprint("k", i)), []byte("old"), bond.NoSync), "set")
	}
	if x.noWAL {
		x.e.cfg.Mod = func(o *pebble.Options) { o.DisableWAL = true }
		x.e.reopen()
	} else if r.Intn(6) == 0 {
		c.Must(x.e.db.Backend().Flush(), "flush")
		x.ro = true
		x.e.cfg.Mod = func(o *pebble.Options) { o.ReadOnly = true }
		x.e.reopen()
	}
	def := &TDef{ID: 9, PK: pkU64, Ser: serCBOR, Idx: pickIndexes(r, 1)}
	x.tab = newTab(x.e.db, def)
	c.Logf("read-only %v, without log %v", x.ro, x.noWAL)
	var bs []*c22Batch
	add := func() {
		b := &c22Batch{id: len(bs), rw: r.Intn(2) == 0, cbs: map[string][]*cbSpec{}, pend: map[string]string{}}
		t := bond.BatchTypeWriteOnly
		if b.rw {
			t = bond.BatchTypeReadWrite
		}
		b.b = x.e.db.Batch(t)
		b.ident = b.b.ID()
		bs = append(bs, b)
	}
	add()
	x.dbClose()
	for i, n := 0, 10+r.Intn(40); i < n; i++ {
		var open []*c22Batch
		for _, b := range bs {
			if !b.closed {
				open = append(open, b)
			}
		}
		if len(open) == 0 || len(open) < 4 && r.Intn(10) == 0 {
			add()
			continue
		}
		x.step(pick(r, open), open)
		c.Eval(1)
	}
	for _, b := range bs {
		if !b.closed {
			x.close(b)
		}
	}
	for k, v := range x.db {
		if got := x.get(k); got != v {
			c.Fail("content", "the key %s holds %q instead of %q at the end", k, got, v)
		}
	}
	x.closeDB()
	c.Distinct(fmt.Sprint(x.log))
	if len(x.fired) >= 3 {
		c.Nontrivial()
	}
	for k := range x.fired {
		c.Count("fired-"+k, 1)
	}
}

func (x *c22) get(k string) string {
	v, cl, err := x.e.db.Get(bond.NewUserKey(k))
	if errors.Is(err, pebble.ErrNotFound) {
		return ""
	}
	if err != nil {
		x.c.Fail("content", "Get in the middle of a call failed: %v", err)
	}
	defer cl.Close()
	return string(v)
}

// fire is what every call-back does.
func (x *c22) fire(of *c22Batch, s *cbSpec, b bond.Batch, err error) error {
	c := x.c
	s.n++
	x.fired[s.kind] = true
	if x.cur == nil {
		c.Fail("when", "%s call-back %d of batch %d called outside of any of its life-cycle calls", s.kind, s.id, of.id)
	}
	if b != of.b {
		c.Fail("batch", "%s call-back %d of batch %d called with another batch", s.kind, s.id, of.id)
	}
	x.log = append(x.log, fmt.Sprintf("%s %d of %d", s.kind, s.id, of.id))
	switch s.kind {
	case "error":
		if x.err == nil {
			x.err = err
		} else if x.err != err {
			c.Fail("error", "the error call-backs were given %v and %v", x.err, err)
		}
		if err == nil {
			c.Fail("error", "error call-back called without error")
		}
		return nil
	case "commit":
		for k, v := range of.pend { // not visible yet
			if x.into == nil && x.db[k] != v && x.get(k) == v {
				c.Fail("visible", "commit call-back %d of batch %d called after the commit", s.id, of.id)
			}
		}
		if s.fail != nil && (s.when == 0 || s.when == s.n) {
			return s.fail
		}
		if s.key != "" {
			v := fmt.Sprint("cb", s.n)
			c.Must(b.Set(bond.NewUserKey(s.key), []byte(v), bond.NoSync), "Set in call-back")
			of.set(s.key, v)
		}
		if s.reg != nil {
			x.register(of, s.reg)
			s.reg = nil
		}
	case "committed":
		for k, v := range of.pend {
			if x.into == nil {
				if got := x.get(k); got != v {
					c.Fail("visible", "committed call-back %d of batch %d: the key %s holds %q, was committed as %q", s.id, of.id, k, got, v)
				}
			} else if x.into.rw {
				got, cl, err := x.into.b.Get(bond.NewUserKey(k))
				if err != nil || string(got) != v {
					c.Fail("visible", "committed call-back %d of the applied batch %d: the key %s holds %q (%v) in the receiving batch, was applied as %q", s.id, of.id, k, got, err, v)
				}
				_ = cl.Close()
			}
		}
	}
	return nil
}

func (b *c22Batch) set(k, v string) {
	b.pend[k] = v
}

// register hands a call-back to the batch; at times one that is registered
// already a second time.
func (x *c22) register(b *c22Batch, s *cbSpec) {
	b.cbs[s.kind] = append(b.cbs[s.kind], s)
	switch s.kind {
	case "commit":
		b.b.OnCommit(func(bb bond.Batch) error { return x.fire(b, s, bb, nil) })
	case "committed":
		b.b.OnCommitted(func(bb bond.Batch) { _ = x.fire(b, s, bb, nil) })
	case "error":
		b.b.OnError(func(bb bond.Batch, err error) { _ = x.fire(b, s, bb, err) })
	case "close":
		b.b.OnClose(func(bb bond.Batch) { _ = x.fire(b, s, bb, nil) })
	}
}

func (x *c22) spec(kind string) *cbSpec {
	r := x.r
	x.n++
	s := &cbSpec{id: x.n, kind: kind}
	if kind == "commit" {
		switch r.Intn(7) {
		case 0, 1:
			s.fail = fmt.Errorf("refused by %d", s.id)
			s.when = r.Intn(3)
		case 2:
			s.key = fmt.Sprint("k", r.Intn(12))
		case 3:
			s.reg = x.spec(pick(r, []string{"committed", "error", "close"}))
		}
	}
	return s
}

func (x *c22) step(b *c22Batch, open []*c22Batch) {
	r, c := x.r, x.c
	k := r.Intn(16)
	if k >= 8 && k < 14 && b.empty() && !b.spoiled && r.Intn(4) > 0 {
		k = 5
	}
	if b.spoiled && r.Intn(3) > 0 {
		x.reset(b)
		return
	}
	switch {
	case k < 5:
		s := x.spec(pick(r, []string{"commit", "committed", "error", "close"}))
		c.Logf("batch %d: register %s %d fail %v/%d key %s reg %v", b.id, s.kind, s.id, s.fail, s.when, s.key, s.reg)
		x.register(b, s)
	case k < 8:
		if b.spoiled {
			return
		}
		key, v := fmt.Sprint("k", r.Intn(12)), fmt.Sprint("v", r.Intn(1000000))
		c.Logf("batch %d: set %s %s", b.id, key, v)
		c.Must(b.b.Set(bond.NewUserKey(key), []byte(v), bond.NoSync), "Set")
		b.set(key, v)
	case k == 8:
		if b.spoiled || x.ro {
			return
		}
		c.Logf("batch %d: insert rows", b.id)
		var rs []Row
		for i := 0; i < 1+r.Intn(3); i++ {
			x.next++
			rs = append(rs, Row{ID: x.next})
		}
		bb := b.b
		if !x.noWAL && r.Intn(2) == 0 { // batches inside of bond are nobody else's business
			bb = nil
		} else {
			b.rows++
		}
		c.Must(x.tab.Insert(bg, rs, bb), "insert")
	case k < 12:
		x.commit(b)
	case k < 14:
		t := pick(r, open)
		if t == b || t.spoiled || b.spoiled {
			return
		}
		x.apply(t, b)
	case k == 14:
		if r.Intn(2) == 0 {
			x.close(b)
			return
		}
		x.reset(b)
	default:
		if len(open) > 1 && !b.spoiled {
			for _, t := range open {
				if t != b && !t.spoiled && r.Intn(3) == 0 {
					x.applySpoiled(t, b)
					return
				}
			}
		}
	}
}

func (x *c22) reset(b *c22Batch) {
	x.c.Logf("batch %d: reset", b.id)
	b.b.Reset()
	b.cbs = map[string][]*cbSpec{}
	b.pend = map[string]string{}
	b.rows = 0
	b.spoiled = false
	b.ident = b.b.ID()
}

// during runs a life-cycle call of b and returns its error and the calls made.
func (x *c22) during(b, into *c22Batch, f func() error) (error, []string) {
	x.cur, x.into, x.err = b, into, nil
	n := len(x.log)
	err := f()
	x.cur, x.into = nil, nil
	return err, x.log[n:]
}

// expectCommit foretells the commit call-backs.
func (x *c22) expectCommit(b *c22Batch) (log []string, err error, more []*cbSpec) {
	for _, s := range b.cbs["commit"] {
		log = append(log, fmt.Sprintf("commit %d of %d", s.id, b.id))
		if s.fail != nil && (s.when == 0 || s.when == s.n+1) {
			return log, s.fail, more
		}
		if s.reg != nil {
			more = append(more, s.reg)
		}
	}
	return log, nil, more
}

func (b *c22Batch) calls(kind string, more []*cbSpec) (log []string) {
	for _, s := range b.cbs[kind] {
		log = append(log, fmt.Sprintf("%s %d of %d", kind, s.id, b.id))
	}
	for _, s := range more {
		if s.kind == kind {
			log = append(log, fmt.Sprintf("%s %d of %d", kind, s.id, b.id))
		}
	}
	return
}

func (x *c22) compare(what string, got, want []string) {
	if strings.Join(got, ", ") != strings.Join(want, ", ") {
		x.c.Fail("calls", "%s called [%s] instead of [%s]", what, strings.Join(got, ", "), strings.Join(want, ", "))
	}
}

func (b *c22Batch) empty() bool { return len(b.pend) == 0 && b.rows == 0 }

func (x *c22) commit(b *c22Batch) {
	r, c := x.r, x.c
	if b.spoiled {
		return
	}
	opt := bond.NoSync
	if r.Intn(2) == 0 {
		opt = bond.Sync
	}
	what := "Commit"
	call := func() error { return b.b.Commit(opt) }
	if r.Intn(3) == 0 {
		what = "DB.Apply"
		call = func() error { return x.e.db.Apply(b.b, opt) }
	}
	if b.b.Empty() != b.empty() {
		c.Fail("empty", "batch %d with %d writes: Empty is %v", b.id, len(b.pend), b.b.Empty())
	}
	var want []string
	var wantErr error
	refused := x.ro || opt.Sync && x.noWAL
	if !b.empty() {
		var more []*cbSpec
		want, wantErr, more = x.expectCommit(b)
		if wantErr == nil {
			if refused {
				want = append(want, b.calls("error", more)...)
			} else {
				want = append(want, b.calls("committed", more)...)
			}
		}
	} else {
		refused = false
	}
	was := b.empty()
	c.Logf("batch %d: %s %v, expected %v %v", b.id, what, opt, want, wantErr)
	err, got := x.during(b, nil, call)
	x.compare(fmt.Sprintf("%s of batch %d (sync %v, empty %v, refused by the storage %v)", what, b.id, opt.Sync, was, refused), got, want)
	switch {
	case wantErr != nil:
		if err != wantErr {
			c.Fail("result", "%s returned %v, the commit call-back %v", what, err, wantErr)
		}
		c.Count("prevented", 1)
	case refused:
		if err == nil {
			c.Fail("result", "%s refused by the storage returned no error", what)
		}
		if x.err != nil && x.err != err {
			c.Fail("error", "%s returned %v, the error call-backs were given %v", what, err, x.err)
		}
		c.Count("refused", 1)
	default:
		if err != nil {
			c.Fail("result", "%s failed: %v", what, err)
		}
		if was {
			c.Count("empty", 1)
			return
		}
		for k, v := range b.pend {
			x.db[k] = v
		}
		c.Count("committed", 1)
		b.spoiled = true // can only be reset or closed now
	}
	for k := range b.pend {
		if got := x.get(k); got != x.db[k] {
			c.Fail("content", "after %s (%v) the key %s holds %q instead of %q", what, err, k, got, x.db[k])
		}
	}
}

// apply applies b onto t.
func (x *c22) apply(t, b *c22Batch) {
	r, c := x.r, x.c
	if b.empty() { // nothing to say about these
		return
	}
	if r.Intn(8) == 0 { // something that isn't one of bond's batches
		err, got := x.during(nil, t, func() error { return t.b.Apply(struct{ bond.Batch }{b.b}, bond.NoSync) })
		if err == nil {
			// taken all the same
			c.Harness("Apply of a foreign batch succeeds")
		}
		x.compare("Apply of a foreign batch", got, nil)
		return
	}
	want, wantErr, more := x.expectCommit(b)
	if wantErr == nil {
		want = append(want, b.calls("committed", more)...)
	}
	c.Logf("batch %d: apply %d, expected %v %v", t.id, b.id, want, wantErr)
	err, got := x.during(b, t, func() error { return t.b.Apply(b.b, bond.NoSync) })
	x.compare(fmt.Sprintf("applying batch %d onto %d", b.id, t.id), got, want)
	if err != wantErr {
		c.Fail("result", "applying batch %d onto %d returned %v instead of %v", b.id, t.id, err, wantErr)
	}
	if err == nil {
		for k, v := range b.pend {
			t.set(k, v)
		}
		t.rows += b.rows
		c.Count("applied", 1)
	} else {
		c.Count("prevented", 1)
	}
	if t.rw {
		for _, k := range keysOf(t.pend) {
			got, cl, err := t.b.Get(bond.NewUserKey(k))
			if err != nil || string(got) != t.pend[k] {
				c.Fail("content", "batch %d holds %q (%v) at %s after an apply, should hold %q", t.id, got, err, k, t.pend[k])
			}
			_ = cl.Close()
		}
	}
}

func keysOf(m map[string]string) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// applySpoiled applies a batch whose content can't be read.
func (x *c22) applySpoiled(t, b *c22Batch) {
	c := x.c
	sr, ok := b.b.(interface{ SetRepr([]byte) error })
	if !ok {
		return
	}
	for _, s := range b.cbs["commit"] {
		if s.key != "" { // writes to it
			return
		}
	}
	_ = sr.SetRepr([]byte{0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0xee, 1, 2, 3, 4})
	want, wantErr, more := x.expectCommit(b)
	if wantErr == nil {
		want = append(want, b.calls("error", more)...)
	}
	b.pend, b.rows = map[string]string{}, 0
	c.Logf("batch %d: apply damaged %d, expected %v %v", t.id, b.id, want, wantErr)
	err, got := x.during(b, t, func() error { return t.b.Apply(b.b, bond.NoSync) })
	if wantErr == nil && err == nil {
		c.Harness("applying a damaged batch succeeds")
	}
	x.compare(fmt.Sprintf("applying the damaged batch %d onto %d", b.id, t.id), got, want)
	if wantErr != nil && err != wantErr || x.err != nil && x.err != err {
		c.Fail("result", "applying the damaged batch %d onto %d returned %v, the call-backs %v, given %v", b.id, t.id, err, wantErr, x.err)
	}
	b.spoiled = true
	if wantErr == nil {
		t.spoiled = true
	}
	c.Count("apply-failed", 1)
}

func (x *c22) close(b *c22Batch) {
	c := x.c
	want := b.calls("close", nil)
	c.Logf("batch %d: close, expected %v", b.id, want)
	err, got := x.during(b, nil, b.b.Close)
	x.compare(fmt.Sprintf("closing batch %d", b.id), got, want)
	if err != nil {
		c.Fail("result", "closing batch %d failed: %v", b.id, err)
	}
	if x.r.Intn(3) == 0 { // as with defer
		err, got := x.during(b, nil, b.b.Close)
		x.compare(fmt.Sprintf("closing batch %d again", b.id), got, nil)
		if err != nil {
			c.Logf("%v", err)
		}
	}
	b.closed = true
	c.Count("closed", 1)
}

func (x *c22) dbClose() {
	c := x.c
	handle := x.e.db
	for i := 0; i < x.r.Intn(4); i++ {
		i := i
		x.e.db.OnClose(func(db bond.DB) {
			if db != handle {
				c.Fail("db-close", "close call-back called with another database")
			}
			v, cl, err := db.Get(bond.NewUserKey("k0"))
			if err != nil || string(v) != x.db["k0"] {
				c.Fail("db-close", "the database can't be read in its close call-back: %q, %v", v, err)
			}
			_ = cl.Close()
			if !x.ro {
				if err := db.Set(bond.NewUserKey(fmt.Sprint("closing", i)), []byte("x"), bond.NoSync); err != nil {
					c.Fail("db-close", "the database can't be written in its close call-back: %v", err)
				}
			}
			x.log = append(x.log, fmt.Sprintf("db %d", i))
		})
		x.pre += fmt.Sprintf("|db %d", i)
	}
}

func (x *c22) closeDB() {
	c := x.c
	n := len(x.log)
	if err := x.e.close(); err != nil {
		c.Fail("db-close", "closing failed: %v", err)
	}
	want := strings.Split(x.pre, "|")[1:]
	x.compare("closing the database", x.log[n:], want)
	if len(want) > 0 && !x.ro && !x.noWAL {
		if err := x.e.open(); err != nil {
			c.Fail("db-close", "reopening failed: %v", err)
		}
		for i := range want {
			if x.get(fmt.Sprint("closing", i)) != "x" {
				c.Fail("db-close", "what the close call-back %d wrote is gone", i)
			}
		}
		c.Count("db-closed", 1)
	}
}
