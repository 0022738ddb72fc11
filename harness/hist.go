package main

import (
	"errors"
	"fmt"
	"math/rand"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/bloom"
)

// idPool draws n distinct row ids with boundary values.
func idPool(r *rand.Rand, n int) []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	for len(out) < n {
		v := edgeU64(r)
		if r.Intn(3) == 0 {
			v = uint64(r.Intn(40))
		}
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return out
}

func newBloom(r *rand.Rand) *bloom.BloomFilter {
	return bloom.NewBloomFilter(uint(pick(r, []int{1, 20, 1000, 20000})), pick(r, []float64{0.5, 0.1, 0.01}), pick(r, []int{1, 2, 7, 40}))
}

// Hist runs a random history of write calls against a table and a model.
type Hist struct {
	c     *Case
	e     *Env
	t     Tab
	m     *Model
	p     *Profile
	r     *rand.Rand
	bulk  int // chance in percent of a call larger than the internal chunk
	fresh uint64
	noRef bool // no calls that must be refused
	batch bool // some calls through batches of their own
	unsaf bool // unsafe inserts and updates
	calls int
	pad   int // size of the data of every slim row
}

// conflict functions
type confl struct {
	name string
	f    func(o, n Row) Row // nil: replace
	mut  func(o, n *Row)    // in place
}

func foldSum(o, n Row) Row {
	o.B += n.B
	o.A = o.A*3 + n.A
	o.Str = n.Str
	o.Data = append(append([]byte(nil), n.Data...), byte(o.A))
	o.On = !n.On
	if n.Opt != nil {
		v := *n.Opt
		o.Opt = &v
	} else {
		o.Opt = nil
	}
	o.Tags = n.Tags
	if len(o.Data) > 40 {
		o.Data = o.Data[:40]
	}
	o.W = append([]int64{int64(len(o.W))}, n.W...)
	return o
}

var conflicts = []confl{
	{name: "replace"},
	{name: "replace-f", f: func(o, n Row) Row { return n }},
	{name: "keep", f: func(o, n Row) Row { return o }},
	{name: "fold", f: foldSum},
	{name: "fold-in-place", mut: func(o, n *Row) { *o = foldSum(o.Clone(), n.Clone()) }},
	{name: "pick-max", f: func(o, n Row) Row {
		if n.B > o.B {
			return n
		}
		return o
	}},
}

func (cf confl) model() func(o, n Row) Row {
	if cf.mut != nil {
		return func(o, n Row) Row { cf.mut(&o, &n); return o }
	}
	return cf.f
}

func ids(rs []Row) string {
	if len(rs) > 12 {
		return fmt.Sprintf("[%d rows %d..%d]", len(rs), rs[0].ID, rs[len(rs)-1].ID)
	}
	return fmt.Sprint(rs)
}

func (h *Hist) present(n int) []Row {
	var out []Row
	for _, i := range h.r.Perm(len(h.p.IDs)) {
		if len(out) == n {
			break
		}
		if r, ok := h.m.Rows[h.p.IDs[i]]; ok {
			out = append(out, r.Clone())
		}
	}
	return out
}

func (h *Hist) absent(n int) []Row {
	var out []Row
	for _, i := range h.r.Perm(len(h.p.IDs)) {
		if len(out) == n {
			break
		}
		if _, ok := h.m.Rows[h.p.IDs[i]]; !ok {
			out = append(out, h.p.rowID(h.r, h.p.IDs[i]))
		}
	}
	return out
}

func (h *Hist) shuffle(rs []Row) {
	h.r.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
}

// withBatch runs a write call directly or through a batch of its own.
func (h *Hist) withBatch(f func(b bond.Batch) error) (string, error) {
	if !h.batch || h.r.Intn(100) >= 20 {
		return "", f(nil)
	}
	b := h.e.db.Batch(bond.BatchTypeReadWrite)
	name := "rw-batch "
	if h.r.Intn(3) == 0 {
		_ = b.Close()
		b = h.e.db.Batch(bond.BatchTypeWriteOnly)
		name = "wo-batch "
	}
	defer b.Close()
	if err := f(b); err != nil {
		return name, err
	}
	if err := b.Commit(bond.Sync); err != nil {
		h.c.Fail("commit", "commit of a %sfailed: %v", name, err)
	}
	return name, nil
}

// step makes one write call and applies it to the model. Outcomes that differ
// from the model's are reported through bad.
func (h *Hist) step(bad func(key, f string, a ...any)) {
	r := h.r
	h.calls++
	big := h.bulk > 0 && r.Intn(100) < h.bulk
	if big {
		h.bulkStep(bad)
		return
	}
	kind := r.Intn(100)
	n := 1 + r.Intn(4)
	if r.Intn(12) == 0 {
		n = 8 + r.Intn(20)
	}
	switch {
	case kind < 28: // insert
		rs := h.absent(n)
		if !h.noRef && r.Intn(5) == 0 {
			rs = append(rs, h.p.row(r))
		}
		if !h.noRef && r.Intn(8) == 0 && len(rs) > 0 {
			x := h.p.mutate(r, pick(r, rs))
			rs = append(rs, x)
		}
		h.shuffle(rs)
		want := h.m.InsertErr(rs)
		bn, err := h.withBatch(func(b bond.Batch) error { return h.t.Insert(bg, rs, b) })
		h.c.Logf("%sinsert %s -> %v", bn, ids(rs), err != nil)
		h.c.Count("insert", 1)
		if want != (err != nil) {
			bad("insert-outcome", "%sinsert of %s returned %v, a map would %s", bn, ids(rs), err, map[bool]string{true: "refuse it", false: "accept it"}[want])
		}
		if err == nil {
			h.m.Put(rs)
		} else {
			h.c.Count("refused", 1)
		}
	case kind < 50: // update
		rs := h.present(n)
		for i := range rs {
			rs[i] = h.p.mutate(r, rs[i])
		}
		if len(rs) > 0 {
			for k := r.Intn(4) - 1; k > 0; k-- { // repeated rows
				rs = append(rs, h.p.mutate(r, pick(r, rs)))
				h.c.Count("repeated", 1)
			}
		}
		if !h.noRef && r.Intn(6) == 0 {
			rs = append(rs, h.absent(1)...)
		}
		if r.Intn(2) == 0 {
			h.shuffle(rs)
		}
		want := h.m.UpdateErr(rs)
		bn, err := h.withBatch(func(b bond.Batch) error {
			if b != nil && b.Type() == bond.BatchTypeWriteOnly && dupIDs(rs) {
				return h.t.Update(bg, rs, nil)
			}
			return h.t.Update(bg, rs, b)
		})
		h.c.Logf("%supdate %s -> %v", bn, ids(rs), err != nil)
		h.c.Count("update", 1)
		if want != (err != nil) {
			bad("update-outcome", "%supdate of %s returned %v, a map would %s", bn, ids(rs), err, map[bool]string{true: "refuse it", false: "accept it"}[want])
		}
		if err == nil {
			h.m.Put(rs)
		} else {
			h.c.Count("refused", 1)
		}
	case kind < 74: // upsert
		var rs []Row
		for i := 0; i < n; i++ {
			if o, ok := h.m.Rows[pick(r, h.p.IDs)]; ok && r.Intn(3) > 0 {
				rs = append(rs, h.p.mutate(r, o))
			} else {
				rs = append(rs, h.p.row(r))
			}
		}
		for k := r.Intn(5) - 1; k > 0; k-- {
			rs = append(rs, h.p.mutate(r, pick(r, rs)))
			h.c.Count("repeated", 1)
		}
		if r.Intn(2) == 0 {
			h.shuffle(rs)
		}
		cf := pick(r, conflicts)
		bn, err := h.withBatch(func(b bond.Batch) error {
			if b != nil && b.Type() == bond.BatchTypeWriteOnly && dupIDs(rs) {
				b = nil
			}
			if cf.mut != nil {
				return h.t.UpsertMut(bg, rs, cf.mut, b)
			}
			return h.t.Upsert(bg, rs, cf.f, b)
		})
		h.c.Logf("%supsert(%s) %s -> %v", bn, cf.name, ids(rs), err != nil)
		h.c.Count("upsert", 1)
		if err != nil {
			bad("upsert-outcome", "%supsert(%s) of %s failed: %v", bn, cf.name, ids(rs), err)
		}
		h.m.Upsert(rs, cf.model())
	case kind < 90: // delete
		rs := h.present(n)
		if r.Intn(3) == 0 {
			rs = append(rs, h.absent(1)...)
		}
		if r.Intn(6) == 0 && len(rs) > 0 {
			rs = append(rs, rs[0])
		}
		h.shuffle(rs)
		bn, err := h.withBatch(func(b bond.Batch) error { return h.t.Delete(bg, rs, b) })
		h.c.Logf("%sdelete %s -> %v", bn, ids(rs), err != nil)
		h.c.Count("delete", 1)
		if err != nil {
			bad("delete-outcome", "%sdelete of %s failed: %v", bn, ids(rs), err)
		}
		h.m.Del(rs)
	case kind < 94 && h.unsaf: // unsafe insert of new rows
		rs := h.absent(n)
		bn, err := h.withBatch(func(b bond.Batch) error { return h.t.UnsafeInsert(bg, rs, b) })
		h.c.Logf("%sunsafe-insert %s -> %v", bn, ids(rs), err != nil)
		h.c.Count("unsafe", 1)
		if err != nil {
			bad("unsafe-insert-outcome", "%sunsafe insert of %s failed: %v", bn, ids(rs), err)
		}
		h.m.Put(rs)
	case h.unsaf:
		olds := h.present(n)
		rs := make([]Row, len(olds))
		for i := range rs {
			rs[i] = h.p.mutate(r, olds[i])
		}
		if r.Intn(6) == 0 {
			// as many old rows as new ones have to be given
			a, b := rs, olds
			switch k := r.Intn(len(rs) + 1); {
			case k < len(rs) && r.Intn(2) == 0:
				a = a[:k]
			case k < len(rs):
				b = b[:k]
			default:
				b = append(append([]Row{}, b...), h.p.row(r))
			}
			bn, err := h.withBatch(func(x bond.Batch) error { return h.t.UnsafeUpdate(bg, a, b, x) })
			h.c.Logf("%sunsafe-update %s with %d old rows -> %v", bn, ids(a), len(b), err != nil)
			h.c.Count("unsafe-uneven", 1)
			if err == nil {
				bad("unsafe-update-outcome", "%sunsafe update of %d rows with %d old ones succeeded", bn, len(a), len(b))
			}
			return
		}
		bn, err := h.withBatch(func(b bond.Batch) error { return h.t.UnsafeUpdate(bg, rs, olds, b) })
		h.c.Logf("%sunsafe-update %s -> %v", bn, ids(rs), err != nil)
		h.c.Count("unsafe", 1)
		if err != nil {
			bad("unsafe-update-outcome", "%sunsafe update of %s failed: %v", bn, ids(rs), err)
		}
		h.m.Put(rs)
	}
}

// notWO drops a write-only batch for rows that name a key twice: such a batch
// does not see its own rows.
func notWO(b bond.Batch, rs []Row) bond.Batch {
	if b != nil && b.Type() == bond.BatchTypeWriteOnly && dupIDs(rs) {
		return nil
	}
	return b
}

func dupIDs(rs []Row) bool {
	seen := map[uint64]bool{}
	for _, r := range rs {
		if seen[r.ID] {
			return true
		}
		seen[r.ID] = true
	}
	return false
}

// small rows for calls with thousands of rows
func (h *Hist) slim(id uint64) Row {
	x := h.p.rowID(h.r, id)
	if len(x.Data) > 8 && !h.p.Huge {
		x.Data = x.Data[:8]
	}
	if h.pad > 0 {
		x.Data = append(make([]byte, 0, h.pad+8), x.Data...)[:h.pad]
	}
	return x
}

// bulkStep makes a call of thousands of rows, with the interesting row in a
// later internal chunk.
func (h *Hist) bulkStep(bad func(key, f string, a ...any)) {
	r := h.r
	if h.fresh < 1<<40 {
		h.fresh += 1 << 40
	}
	n := pick(r, []int{4999, 5000, 5001, 5002, 7000, 9999, 10000, 10001, 10300})
	rs := make([]Row, 0, n+8)
	var bulkIDs []uint64
	for id := range h.m.Rows {
		if id >= 1<<40 && id < 1<<41 {
			bulkIDs = append(bulkIDs, id)
		}
	}
	sortU64(bulkIDs)
	h.c.Count("bulk", 1)
	kind := r.Intn(4)
	if len(bulkIDs) == 0 || len(bulkIDs) > 24000 {
		kind = map[bool]int{true: 0, false: 3}[len(bulkIDs) == 0]
	}
	switch kind {
	case 0:
		for i := 0; i < n; i++ {
			h.fresh++
			rs = append(rs, h.slim(h.fresh))
		}
		what := "fresh"
		switch r.Intn(4) {
		case 0:
			if h.noRef {
				break
			}
			// a duplicate of an early row in a later chunk
			i, j := r.Intn(minI(n, 4999)), n-1-r.Intn(3)
			rs[j] = h.slim(rs[i].ID)
			what = fmt.Sprintf("row %d repeats %d", j, i)
		case 1:
			if h.noRef {
				break
			}
			if p := h.present(1); len(p) > 0 {
				j := n - 1 - r.Intn(n/2)
				rs[j] = h.p.mutate(r, p[0])
				what = fmt.Sprintf("row %d exists", j)
			}
		}
		if r.Intn(2) == 0 {
			h.shuffle(rs)
			what += " shuffled"
		}
		want := h.m.InsertErr(rs)
		if h.unsaf && !want && r.Intn(2) == 0 {
			bn, err := h.withBatch(func(b bond.Batch) error { return h.t.UnsafeInsert(bg, rs, b) })
			h.c.Logf("%sbulk unsafe insert %s -> %v", bn, ids(rs), err != nil)
			h.c.Count("bulk-unsafe", 1)
			if err != nil {
				bad("unsafe-insert-outcome", "%sbulk unsafe insert of %s failed: %v", bn, ids(rs), err)
			}
			h.m.Put(rs)
			return
		}
		bn, err := h.withBatch(func(b bond.Batch) error { return h.t.Insert(bg, rs, notWO(b, rs)) })
		h.c.Logf("%sbulk insert %s %s -> %v", bn, ids(rs), what, err != nil)
		if want != (err != nil) {
			bad("insert-outcome", "bulk insert of %s (%s) returned %v, a map would %s", ids(rs), what, err, map[bool]string{true: "refuse it", false: "accept it"}[want])
		}
		if err == nil {
			h.m.Put(rs)
		}
	case 1, 2:
		for i := 0; i < n && i < len(bulkIDs); i++ {
			rs = append(rs, h.slim(bulkIDs[i]))
		}
		for len(rs) < n { // repeat rows, across the chunks
			rs = append(rs, h.slim(pick(r, bulkIDs)))
		}
		for k := 0; k < 20; k++ {
			rs = append(rs, h.slim(rs[r.Intn(len(rs))].ID))
		}
		if r.Intn(2) == 0 {
			h.shuffle(rs)
		}
		if kind == 1 && h.unsaf && r.Intn(3) == 0 {
			seen := map[uint64]bool{}
			var news, olds []Row
			for _, x := range rs {
				if o, ok := h.m.Rows[x.ID]; ok && !seen[x.ID] {
					seen[x.ID] = true
					news, olds = append(news, x), append(olds, o.Clone())
				}
			}
			bn, err := h.withBatch(func(b bond.Batch) error { return h.t.UnsafeUpdate(bg, news, olds, b) })
			h.c.Logf("%sbulk unsafe update %s -> %v", bn, ids(news), err != nil)
			h.c.Count("bulk-unsafe", 1)
			if err != nil {
				bad("unsafe-update-outcome", "%sbulk unsafe update of %s failed: %v", bn, ids(news), err)
			}
			h.m.Put(news)
		} else if kind == 1 {
			if !h.noRef && r.Intn(3) == 0 {
				if a := h.absent(1); len(a) > 0 {
					rs[len(rs)-1-r.Intn(10)] = a[0]
				}
			}
			want := h.m.UpdateErr(rs)
			bn, err := h.withBatch(func(b bond.Batch) error { return h.t.Update(bg, rs, notWO(b, rs)) })
			h.c.Logf("%sbulk update %s -> %v", bn, ids(rs), err != nil)
			if want != (err != nil) {
				bad("update-outcome", "bulk update of %s returned %v, a map would %s", ids(rs), err, map[bool]string{true: "refuse it", false: "accept it"}[want])
			}
			if err == nil {
				h.m.Put(rs)
			}
		} else {
			cf := pick(r, conflicts)
			for k := 0; k < 300; k++ {
				h.fresh++
				rs[r.Intn(len(rs))] = h.slim(h.fresh)
			}
			bn, err := h.withBatch(func(b bond.Batch) error {
				b = notWO(b, rs)
				if cf.mut != nil {
					return h.t.UpsertMut(bg, rs, cf.mut, b)
				}
				return h.t.Upsert(bg, rs, cf.f, b)
			})
			h.c.Logf("%sbulk upsert(%s) %s -> %v", bn, cf.name, ids(rs), err != nil)
			if err != nil {
				bad("upsert-outcome", "bulk upsert(%s) of %s failed: %v", cf.name, ids(rs), err)
			}
			h.m.Upsert(rs, cf.model())
		}
	case 3:
		for i, id := range bulkIDs {
			if i < n {
				rs = append(rs, h.m.Rows[id].Clone())
			}
		}
		h.shuffle(rs)
		bn, err := h.withBatch(func(b bond.Batch) error { return h.t.Delete(bg, rs, b) })
		h.c.Logf("%sbulk delete %s -> %v", bn, ids(rs), err != nil)
		if err != nil {
			bad("delete-outcome", "bulk delete of %s failed: %v", ids(rs), err)
		}
		h.m.Del(rs)
	}
}

func sortU64(v []uint64) {
	for i := 1; i < len(v); i++ {
		if v[i-1] > v[i] {
			sortU64Slow(v)
			return
		}
	}
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var _ = pebble.ErrNotFound
var _ = errors.Is
