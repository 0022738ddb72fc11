package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/go-bond/bond"
	"github.com/google/uuid"
)

func init() {
	register(&Check{ID: "C21", Level: "exploration", Race: true, Quick: 480, Thorough: 6000, Run: runC21,
		Rule: "one number sequence drawn from by several goroutines with pauses, across the change of the second, from sequences about to be exhausted and whose clock went back; identifiers of batches of several databases created and reset at once; UUIDs; offline uniqueness and real-time order check over every draw, race detector; non-trivial: at least 4 goroutines drew at once or the second changed or a sequence was exhausted",
	})
}

type draw struct {
	start, end int64 // by a shared counter
	from, to   int64 // by the clock, seconds
	n          uint64
	err        error
	g          int
}

// lastOf points at the number a sequence handed out last, nil if it isn't kept
// in a single number.
func lastOf(s *bond.NumberSequence) *uint64 {
	v := reflect.ValueOf(s).Elem()
	var p *uint64
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Kind() == reflect.Uint64 {
			if p != nil {
				return nil
			}
			p = (*uint64)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
		}
	}
	return p
}

func runC21(c *Case) {
	r := c.R
	switch k := r.Intn(20); {
	case k < 8:
		c21Plain(c, false)
	case k < 10:
		c21Plain(c, true)
	case k < 13:
		c21Exhaust(c)
	case k < 14:
		c21Back(c)
	case k < 19:
		c21Batches(c)
	default:
		c21UUID(c)
	}
}

// beforeChange waits until shortly before the second changes.
func beforeChange(d time.Duration) {
	now := time.Now()
	next := now.Truncate(time.Second).Add(time.Second - d)
	if next.After(now) {
		time.Sleep(next.Sub(now))
	}
}

// drawAll lets n goroutines draw until done says so.
func drawAll(c *Case, s bond.UniqueKeyGenerator[uint64], n int, clk *atomic.Int64, noise int, done func(i int, d *draw) bool) []draw {
	out := make([][]draw, n)
	c.Par(n, func(g int, r *rand.Rand) {
		for i := 0; ; i++ {
			d := draw{g: g, from: time.Now().Unix(), start: clk.Add(1)}
			d.n, d.err = s.Next()
			d.end = clk.Add(1)
			d.to = time.Now().Unix()
			out[g] = append(out[g], d)
			if done(i, &d) {
				return
			}
			switch {
			case noise == 1 && r.Intn(3) == 0:
				runtime.Gosched()
			case noise == 2 && r.Intn(20) == 0:
				time.Sleep(time.Duration(r.Intn(50)) * time.Microsecond)
			}
		}
	})
	var all []draw
	for _, l := range out {
		all = append(all, l...)
	}
	return all
}

// c21Check checks the draws from one sequence; back: the clock went back, so
// only uniqueness holds.
func c21Check(c *Case, s *bond.NumberSequence, all []draw, back bool) (ok int) {
	seen := map[uint64]*draw{}
	var good []*draw
	for i := range all {
		d := &all[i]
		if d.err != nil {
			continue
		}
		if o := seen[d.n]; o != nil {
			c.Fail("twice", "the number %x (second %d, counter %d) was handed out twice, by draws %d-%d of goroutine %d and %d-%d of goroutine %d", d.n, d.n>>24, d.n&0xffffff, o.start, o.end, o.g, d.start, d.end, d.g)
		}
		seen[d.n] = d
		good = append(good, d)
	}
	if back {
		return len(good)
	}
	// a draw that began after another had ended got a larger number
	byEnd := append([]*draw(nil), good...)
	sort.Slice(byEnd, func(i, j int) bool { return byEnd[i].end < byEnd[j].end })
	sort.Slice(good, func(i, j int) bool { return good[i].start < good[j].start })
	var max *draw
	j := 0
	for _, d := range good {
		for ; j < len(byEnd) && byEnd[j].end < d.start; j++ {
			if max == nil || byEnd[j].n > max.n {
				max = byEnd[j]
			}
		}
		if max != nil && max.n >= d.n {
			c.Fail("order", "draw %d-%d got %x although draw %d-%d had got %x before", d.start, d.end, d.n, max.start, max.end, max.n)
		}
	}
	// the parts can be read back
	sort.Slice(good, func(i, j int) bool { return good[i].n < good[j].n })
	full := map[uint64]bool{}
	for i, d := range good {
		ts, k := s.Timestamp(d.n), s.SequenceNumber(d.n)
		if d.from <= d.to && (int64(ts) < d.from || int64(ts) > d.to) {
			c.Fail("time", "the number %x drawn between %d and %d carries the time %d", d.n, d.from, d.to, ts)
		}
		if k >= 1<<24 {
			c.Fail("counter", "the number %x carries the counter %d", d.n, k)
		}
		if i > 0 {
			o := good[i-1]
			if ots, ok := s.Timestamp(o.n), s.SequenceNumber(o.n); ots > ts || ots == ts && ok >= k {
				c.Fail("counter", "the numbers %x and %x carry (%d, %d) and (%d, %d)", o.n, d.n, ots, ok, ts, k)
			}
		}
		if k == 1<<24-1 {
			full[ts] = true
		}
	}
	for i := range all {
		if d := &all[i]; d.err != nil {
			if !full[uint64(d.from)] && !full[uint64(d.to)] {
				c.Fail("exhausted", "draw %d-%d fails at %d with %v, the numbers of the second are not exhausted", d.start, d.end, d.to, d.err)
			}
		}
	}
	return len(good)
}

// c21ReadBack reads the parts of numbers of any time.
func c21ReadBack(c *Case, s *bond.NumberSequence) {
	for i := 0; i < 200; i++ {
		ts, k := c.R.Uint64()>>(24+c.R.Intn(40)), c.R.Uint64()>>(40+c.R.Intn(24))
		if c.R.Intn(8) == 0 {
			k = 1<<24 - 1
		}
		if gts, gk := s.Timestamp(ts<<24|k), s.SequenceNumber(ts<<24|k); gts != ts || gk != k {
			c.Fail("parts", "the number of second %d and counter %d carries %d and %d", ts, k, gts, gk)
		}
	}
	c.Count("read-back", 200)
}

func c21Plain(c *Case, change bool) {
	r := c.R
	s := &bond.NumberSequence{}
	n := 1 + r.Intn(16)
	noise := r.Intn(3)
	per := 20 + r.Intn(400)
	var clk atomic.Int64
	var all []draw
	c.Logf("%d goroutines, noise %d, %d draws each, change %v", n, noise, per, change)
	if change {
		beforeChange(time.Duration(1+r.Intn(4)) * time.Millisecond)
		var changed atomic.Int32
		var first atomic.Int64
		first.Store(time.Now().Unix())
		all = drawAll(c, s, n, &clk, noise, func(i int, d *draw) bool {
			if d.to > first.Load() {
				changed.Add(1)
			}
			return changed.Load() > int32(3*n) || i > 20000
		})
		c.Count("second-changes", 1)
		c.Nontrivial()
	} else {
		all = drawAll(c, s, n, &clk, noise, func(i int, d *draw) bool { return i >= per })
		if n >= 4 {
			c.Nontrivial()
		}
	}
	k := c21Check(c, s, all, false)
	c21ReadBack(c, s)
	c.Eval(len(all))
	c.Count("numbers", k)
	c.Distinct(fmt.Sprint("plain", n, noise, per, change))
}

// c21Exhaust draws the last numbers of a second.
func c21Exhaust(c *Case) {
	r := c.R
	s := &bond.NumberSequence{}
	p := lastOf(s)
	if p == nil {
		c.Count("exhaustion-skipped", 1)
		return
	}
	n := 1 + r.Intn(8)
	left := r.Intn(40)
	var clk atomic.Int64
	per := 5 + r.Intn(30)
	for time.Now().Nanosecond() > 900e6 {
		time.Sleep(20 * time.Millisecond)
	}
	sec := time.Now().Unix()
	*p = uint64(sec)<<24 | uint64(0xffffff-left)
	c.Logf("%d goroutines, %d numbers left, %d draws each", n, left, per)
	all := drawAll(c, s, n, &clk, r.Intn(3), func(i int, d *draw) bool { return i >= per })
	if len(all) > left && time.Now().Unix() == sec {
		failed := 0
		for i := range all {
			if all[i].err != nil {
				failed++
			}
		}
		if failed != len(all)-left {
			c.Fail("exhausted", "%d numbers were left for %d draws, %d failed", left, len(all), failed)
		}
		c.Count("exhausted", 1)
		if left == 0 { // handed out before
			all = append(all, draw{start: -2, end: -1, from: sec, to: sec, n: uint64(sec)<<24 | 0xffffff})
		}
		c.Nontrivial()
	}
	rec := r.Intn(6) == 0
	if rec { // recovers
		beforeChange(-time.Millisecond)
		m := drawAll(c, s, n, &clk, 0, func(i int, d *draw) bool { return i >= 5 })
		for i := range m {
			if m[i].err != nil {
				c.Fail("recover", "a sequence exhausted in second %d fails at %d: %v", sec, m[i].to, m[i].err)
			}
		}
		all = append(all, m...)
		c.Count("recovered", 1)
	}
	k := c21Check(c, s, all, false)
	c.Eval(len(all))
	c.Count("numbers", k)
	c.Distinct(fmt.Sprint("exhaust", n, left, per))
}

// c21Back lets the clock go back: the sequence has handed out numbers of a
// later second in between.
func c21Back(c *Case) {
	r := c.R
	s := &bond.NumberSequence{}
	p := lastOf(s)
	if p == nil {
		c.Count("exhaustion-skipped", 1)
		return
	}
	var clk atomic.Int64
	n := 1 + r.Intn(8)
	per := 2 + r.Intn(30)
	var all []draw
	for i := 0; i < 2+r.Intn(3); i++ {
		all = append(all, drawAll(c, s, n, &clk, r.Intn(3), func(i int, d *draw) bool { return i >= per })...)
		*p = (uint64(time.Now().Unix())+uint64(1+r.Intn(1000)))<<24 + uint64(i*1000)
	}
	k := c21Check(c, s, all, true)
	if k < len(all) {
		c.Fail("exhausted", "%d of %d draws fail after the clock went back", len(all)-k, len(all))
	}
	c.Eval(len(all))
	c.Count("clock-back", 1)
	c.Distinct(fmt.Sprint("back", n, per, len(all)))
	c.Nontrivial()
}

func c21Batches(c *Case) {
	r := c.R
	var dbs []bond.DB
	for i := 0; i <= r.Intn(2); i++ {
		dbs = append(dbs, newEnv(c, EnvCfg{Ser: newSerializer(serCBOR)}).db)
	}
	n := 1 + r.Intn(12)
	ids := make([][]uint64, n)
	c.Logf("%d databases, %d goroutines", len(dbs), n)
	c.Par(n, func(g int, r *rand.Rand) {
		var bs []bond.Batch
		id := func(b bond.Batch) {
			k := b.ID()
			if o := b.ID(); o != k {
				c.Fail("batch", "the identifier of a batch changed from %x to %x by itself", k, o)
			}
			ids[g] = append(ids[g], k)
		}
		stay := func(b bond.Batch, what string, f func()) {
			k := b.ID()
			f()
			if o := b.ID(); o != k {
				c.Fail("batch", "the identifier of a batch changed from %x to %x by %s", k, o, what)
			}
		}
		for i := 0; i < 60; i++ {
			switch k := r.Intn(8); {
			case k < 3 || len(bs) == 0:
				b := pick(r, dbs).Batch(pick(r, []bond.BatchType{bond.BatchTypeReadWrite, bond.BatchTypeWriteOnly}))
				bs = append(bs, b)
				id(b)
			case k < 6:
				b := pick(r, bs)
				b.Reset()
				id(b)
			case k == 6:
				b := pick(r, bs)
				stay(b, "a write", func() {
					c.Must(b.Set(bond.NewUserKey(fmt.Sprint(g, i)), []byte{1}, bond.NoSync), "set")
				})
			default:
				j := r.Intn(len(bs))
				b := bs[j]
				bs = append(bs[:j], bs[j+1:]...)
				if r.Intn(2) == 0 {
					stay(b, "a commit", func() { c.Must(b.Commit(bond.NoSync), "commit") })
				}
				c.Must(b.Close(), "close")
			}
		}
		for _, b := range bs {
			_ = b.Close()
		}
	})
	seen := map[uint64]int{}
	k := 0
	for g, l := range ids {
		for _, id := range l {
			if o, ok := seen[id]; ok {
				c.Fail("batch", "the batch identifier %x was given twice, to goroutines %d and %d", id, o, g)
			}
			seen[id] = g
			k++
		}
	}
	c.Eval(k)
	c.Count("batches", k)
	c.Distinct(fmt.Sprint("batches", len(dbs), n, k))
	if n >= 4 {
		c.Nontrivial()
	}
}

func c21UUID(c *Case) {
	var gen bond.UniqueKeyGenerator[uuid.UUID] = &bond.UUIDGenerator{}
	n := 1 + c.R.Intn(12)
	out := make([][]uuid.UUID, n)
	c.Par(n, func(g int, r *rand.Rand) {
		my := gen
		if r.Intn(2) == 0 {
			my = &bond.UUIDGenerator{}
		}
		for i := 0; i < 400; i++ {
			u, err := my.Next()
			if err != nil {
				c.Fail("uuid", "UUIDGenerator.Next failed: %v", err)
			}
			out[g] = append(out[g], u)
		}
	})
	seen := map[uuid.UUID]bool{{}: true}
	for _, l := range out {
		for _, u := range l {
			if seen[u] {
				c.Fail("uuid", "the UUID %v is zero or was generated twice", u)
			}
			seen[u] = true
		}
	}
	c.Eval(n * 400)
	c.Count("uuids", n*400)
	c.Distinct(fmt.Sprint("uuid", n))
	if n >= 4 {
		c.Nontrivial()
	}
}
