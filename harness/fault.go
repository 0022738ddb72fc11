package main

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/cockroachdb/pebble/vfs"
	"github.com/cockroachdb/pebble/vfs/errorfs"
	"github.com/go-bond/bond"
)

// tickCtx is a context that is cancelled at its n-th observation.
type tickCtx struct {
	context.Context
	mu   sync.Mutex
	at   int
	n    int
	ch   chan struct{}
	err  error
	errV error
}

func newTickCtx(at int, err error) *tickCtx {
	x := &tickCtx{Context: context.Background(), at: at, ch: make(chan struct{}), errV: err}
	x.tick(0)
	return x
}

func (x *tickCtx) tick(d int) {
	x.mu.Lock()
	x.n += d
	if x.at >= 0 && x.n >= x.at && x.err == nil {
		x.err = x.errV
		close(x.ch)
	}
	x.mu.Unlock()
}

func (x *tickCtx) Done() <-chan struct{} { x.tick(1); return x.ch }
func (x *tickCtx) Err() error {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.err
}
func (x *tickCtx) count() int                  { x.mu.Lock(); defer x.mu.Unlock(); return x.n }
func (x *tickCtx) cancelled() bool             { return x.Err() != nil }
func (x *tickCtx) Deadline() (time.Time, bool) { return time.Time{}, false }

// protect runs f and turns a panic of a user function into an error.
func protect(f func() error) (err error, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(userPanic); ok {
				err, panicked = fmt.Errorf("panic: %s", u.msg), true
				return
			}
			panic(r)
		}
	}()
	return f(), false
}

// slowSyncFS delays every sync of a log file.
func slowSyncFS(fs vfs.FS, d *time.Duration) vfs.FS {
	return errorfs.Wrap(fs, errorfs.InjectorFunc(func(op errorfs.Op) error {
		if (op.Kind == errorfs.OpFileSync || op.Kind == errorfs.OpFileSyncData || op.Kind == errorfs.OpFileSyncTo || op.Kind == errorfs.OpFileWrite) && *d > 0 && len(op.Path) > 4 && op.Path[len(op.Path)-4:] == ".log" {
			time.Sleep(*d)
		}
		return nil
	}))
}

// writeCall is one generated table write call.
type writeCall struct {
	name  string
	rows  []Row
	run   func(ctx context.Context, t Tab, b bond.Batch) error
	model func(m *Model)
	bad   bool // must be refused whatever else happens
}

// genCall draws a write call of about n rows over the rows of the model.
func genCall(h *Hist, n int, refuse bool) writeCall {
	r := h.r
	pos := func() int { return r.Intn(n) }
	// ids that exist and ids that do not
	var have, lack []uint64
	for _, id := range h.p.IDs {
		if _, ok := h.m.Rows[id]; ok {
			have = append(have, id)
		} else {
			lack = append(lack, id)
		}
	}
	r.Shuffle(len(have), func(i, j int) { have[i], have[j] = have[j], have[i] })
	fresh := func() uint64 {
		if len(lack) > 0 && r.Intn(2) == 0 {
			id := lack[0]
			lack = lack[1:]
			return id
		}
		h.fresh++
		return 1<<44 + h.fresh
	}
	var rs []Row
	kind := r.Intn(6)
	if len(have) == 0 && kind != 2 {
		kind = 0
	}
	switch kind {
	case 0: // insert
		for i := 0; i < n; i++ {
			rs = append(rs, h.slim(fresh()))
		}
		w := writeCall{name: "insert"}
		if refuse {
			w.bad = true
			if len(have) > 0 && r.Intn(2) == 0 {
				rs[pos()] = h.slim(have[0])
				w.name = "insert-existing"
			} else if n > 1 {
				i := pos()
				j := (i + 1 + r.Intn(n-1)) % n
				rs[i] = h.slim(rs[j].ID)
				w.name = "insert-repeated"
			} else {
				w.bad = false
			}
		}
		w.rows = rs
		w.run = func(ctx context.Context, t Tab, b bond.Batch) error { return t.Insert(ctx, rs, b) }
		w.model = func(m *Model) { m.Put(rs) }
		return w
	case 1: // update
		for i := 0; i < n; i++ {
			rs = append(rs, h.slim(have[i%len(have)]))
		}
		w := writeCall{name: "update"}
		if refuse {
			w.bad = true
			rs[pos()] = h.slim(fresh())
			w.name = "update-missing"
		}
		w.rows = rs
		w.run = func(ctx context.Context, t Tab, b bond.Batch) error { return t.Update(ctx, rs, b) }
		w.model = func(m *Model) { m.Put(rs) }
		return w
	case 2: // upsert
		for i := 0; i < n; i++ {
			if len(have) > 0 && r.Intn(2) == 0 {
				rs = append(rs, h.slim(pick(r, have)))
			} else {
				rs = append(rs, h.slim(fresh()))
			}
		}
		cf := pick(r, conflicts)
		return writeCall{name: "upsert-" + cf.name, rows: rs,
			run: func(ctx context.Context, t Tab, b bond.Batch) error {
				if cf.mut != nil {
					return t.UpsertMut(ctx, rs, cf.mut, b)
				}
				return t.Upsert(ctx, rs, cf.f, b)
			},
			model: func(m *Model) { m.Upsert(rs, cf.model()) }}
	case 3: // delete
		for i := 0; i < n && i < len(have); i++ {
			rs = append(rs, h.m.Rows[have[i]].Clone())
		}
		return writeCall{name: "delete", rows: rs,
			run:   func(ctx context.Context, t Tab, b bond.Batch) error { return t.Delete(ctx, rs, b) },
			model: func(m *Model) { m.Del(rs) }}
	case 4: // unsafe insert
		for i := 0; i < n; i++ {
			rs = append(rs, h.slim(fresh()))
		}
		return writeCall{name: "unsafe-insert", rows: rs,
			run:   func(ctx context.Context, t Tab, b bond.Batch) error { return t.UnsafeInsert(ctx, rs, b) },
			model: func(m *Model) { m.Put(rs) }}
	default: // unsafe update
		var olds []Row
		for i := 0; i < n && i < len(have); i++ {
			olds = append(olds, h.m.Rows[have[i]].Clone())
			rs = append(rs, h.slim(have[i]))
		}
		return writeCall{name: "unsafe-update", rows: rs,
			run:   func(ctx context.Context, t Tab, b bond.Batch) error { return t.UnsafeUpdate(ctx, rs, olds, b) },
			model: func(m *Model) { m.Put(rs) }}
	}
}
