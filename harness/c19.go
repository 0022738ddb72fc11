package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C19", Level: "fault_enumeration", Quick: 2200, Thorough: 30000, Run: runC19,
		Rule: "every kind of write, scan, index scan, query and intersection run with a context cancelled before the call, at its n-th look-up, and inside the n-th call of a function bond calls back (keys, filters, serializer, scan and filter functions), n drawn from the counts of an uncancelled run; the outcome must be the context's error with nothing more handed out and no effect, or, when no row was left, the correct result; usable and closable afterwards; non-trivial: at least 20 cancellations took effect",
	})
}

// canceller counts the calls back and cancels at one of them.
type canceller struct {
	at     int // the event to cancel at, -1: none
	n      int
	site   string // where it happened
	count  map[string]int
	before map[string]int // counts when it was cancelled
	cancel func()
}

func (x *canceller) event(site string) {
	x.count[site]++
	if x.n == x.at {
		x.site = site
		x.before = map[string]int{}
		for k, v := range x.count {
			x.before[k] = v
		}
		x.cancel()
	}
	x.n++
}

func (x *canceller) reset(at int, cancel func()) {
	*x = canceller{at: at, cancel: cancel, count: map[string]int{}}
}

type c19 struct {
	c    *Case
	h    *Hist
	x    canceller
	hits int
}

var ctxErrs = []error{context.Canceled, context.DeadlineExceeded}

func runC19(c *Case) {
	r := c.R
	def := randTDef(c, pick(r, []byte{1, 3, 254, 255}), 1+r.Intn(4))
	if r.Intn(4) == 0 {
		def.addFilter(c)
	}
	y := &c19{c: c}
	y.x.reset(-1, nil)
	n := 10 + r.Intn(50)
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR)})
	def.Hook = func(string) error { return nil } // a table made with a hook has it in the serializer too
	h := &Hist{c: c, e: e, t: newTab(e.db, def), m: newModel(def), r: r,
		p: &Profile{IDs: idPool(r, n), Small: r.Intn(4) > 0, Zero: pick(r, []int{10, 30, 60})}}
	y.h = h
	def.initFilter(c, e, h.t)
	h.fill()
	c.Logf("%s, %d rows", def.describe(), len(h.m.Rows))
	def.Hook = func(site string) error { y.x.event(site); return nil }
	for i := 0; i < 12; i++ {
		if r.Intn(2) == 0 {
			y.read()
		} else {
			y.write()
		}
	}
	def.Hook = nil
	if a, b := e.keySpaceDiff(h.m); a+b != "" {
		c.Fail("effect", "in the end: %s%s", a, b)
	}
	if err := e.close(); err != nil {
		c.Fail("release", "closing the database after cancelled calls: %v", err)
	}
	if y.hits >= 20 {
		c.Nontrivial()
	}
}

// run runs f with a context cancelled as described by how.
func (y *c19) run(how string, at int, f func(ctx context.Context)) (cause error) {
	switch how {
	case "before":
		ctx, cancel := context.WithCancel(bg)
		if y.c.R.Intn(2) == 0 {
			cancel()
			ctx, cancel = context.WithTimeout(bg, -1)
		}
		cancel()
		y.x.reset(-1, nil)
		f(ctx)
		return ctx.Err()
	case "look-up":
		ctx := newTickCtx(at, pick(y.c.R, ctxErrs))
		y.x.reset(-1, nil)
		f(ctx)
		return ctx.Err()
	default:
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		y.x.reset(at, cancel)
		f(ctx)
		return ctx.Err()
	}
}

type c19Plan struct {
	how string
	at  int
}

// plans draws cancellations for a call with the given numbers of look-ups and
// calls back.
func (y *c19) plans(ticks, events int) []c19Plan {
	r := y.c.R
	ps := []c19Plan{{"before", 0}}
	for k := 0; k < 3; k++ {
		if ticks > 0 {
			ps = append(ps, c19Plan{"look-up", 1 + r.Intn(ticks)})
		}
		if events > 0 {
			ps = append(ps, c19Plan{"call-back", r.Intn(events)})
		}
	}
	return ps
}

func (y *c19) identify(what string, err, cause error) {
	if !errors.Is(err, cause) {
		y.c.Fail("error", "%s gives %q, which doesn't identify %q", what, err, cause)
	}
	y.hits++
	y.c.Count("cancelled", 1)
}

// moved fails when functions were called for further rows after the cancellation.
func (y *c19) moved(what string, sites ...string) {
	for _, s := range sites {
		if y.x.site == s && y.x.count[s] > y.x.before[s] {
			y.c.Fail("goes-on", "%s: %d further rows passed to %s functions", what, y.x.count[s]-y.x.before[s], s)
		}
	}
}

func (y *c19) read() {
	c, r, h := y.c, y.c.R, y.h
	q := h
	var b bond.Batch
	if r.Intn(3) == 0 {
		q, b = h.pending(1 + r.Intn(3))
		defer b.Close()
	}
	op := q.genRead(func() { y.x.event("row") })
	for op.way == "get-point" || op.way == "get-points" || op.way == "iterator" || op.way == "get-range" {
		op = q.genRead(func() { y.x.event("row") })
	}
	var diff string
	var err error
	ctx := newTickCtx(-1, nil)
	y.x.reset(-1, nil)
	diff, err = op.run(ctx, b)
	if err != nil || diff != "" {
		c.Fail("wrong", "%s: %v %s", op.name, err, diff)
	}
	total, events, ticks := y.x.count, y.x.n, ctx.count()
	c.Logf("%s: %d rows, %d look-ups, %d calls back", op.name, op.rows, ticks, events)
	for _, p := range y.plans(ticks, events) {
		cause := y.run(p.how, p.at, func(ctx context.Context) { diff, err = op.run(ctx, b) })
		what := fmt.Sprintf("%s cancelled %s %d of %d/%d", op.name, p.how, p.at, ticks, events)
		c.Eval(1)
		c.Count(op.way, 1)
		c.Distinct(fmt.Sprint(op.way, p.how, minI(p.at, 30), y.x.site, err != nil, minI(op.rows, 20)))
		if diff != "" {
			c.Fail("wrong", "%s: wrong result: %s (%v)", what, diff, err)
		}
		left := false // rows the call had not reached
		switch {
		case p.how == "before":
			left = op.rows > 0 || op.seen > 0
			if y.x.count["row"]+y.x.count["deser"] > 0 {
				c.Fail("goes-on", "%s: %d rows handed out", what, y.x.count["row"]+y.x.count["deser"])
			}
		case p.how == "look-up":
			left = true // it was seen
		case y.x.site == "row" || y.x.site == "deser":
			left = total[y.x.site] > y.x.before[y.x.site]
			y.moved(what, "row", "deser")
		default:
			left = total["deser"] > y.x.before["deser"] || total["row"] > y.x.before["row"]
			if left {
				for _, s := range []string{"row", "deser"} {
					if y.x.count[s] > y.x.before[s] {
						c.Fail("goes-on", "%s: %d rows handed out after it", what, y.x.count[s]-y.x.before[s])
					}
				}
			}
			if op.way == "intersect" && op.tail > 0 {
				left = true
			}
		}
		if err != nil {
			y.identify(what, err, cause)
			if p.how == "call-back" && y.x.before == nil {
				c.Fail("error", "%s fails before it was cancelled: %v", what, err)
			}
		} else if left {
			c.Fail("goes-on", "%s succeeds", what)
		}
		if r.Intn(4) == 0 {
			y.x.reset(-1, nil)
			if diff, err := op.run(bg, b); diff != "" || err != nil {
				c.Fail("after", "%s after %s: %v %s", op.name, what, err, diff)
			}
		}
	}
}

func (y *c19) write() {
	c, r, h := y.c, y.c.R, y.h
	n := 1 + r.Intn(6)
	if r.Intn(3) == 0 {
		n = 20 + r.Intn(40)
	}
	if r.Intn(60) == 0 {
		n = 5000 + r.Intn(300)
	}
	w := genCall(h, n, false)
	if w.bad || len(w.rows) == 0 {
		return
	}
	// a run without cancellation, of no effect
	b := h.e.db.Batch(bond.BatchTypeReadWrite)
	ctx := newTickCtx(-1, nil)
	y.x.reset(-1, nil)
	err := w.run(ctx, h.t, b)
	_ = b.Close()
	if err != nil {
		c.Fail("wrong", "%s of %s: %v", w.name, ids(w.rows), err)
	}
	total, events, ticks := y.x.count, y.x.n, ctx.count()
	most := 6 + 4*len(h.m.Def.Idx)*2 // calls back a row can take
	before := h.e.dumpAll()
	c.Logf("%s of %s: %d look-ups, %d calls back", w.name, ids(w.rows), ticks, events)
	ps := y.plans(ticks, events)
	if n >= 5000 {
		ps = ps[:4]
	}
	for _, p := range ps {
		var b bond.Batch
		if r.Intn(4) == 0 {
			b = h.e.db.Batch(pick(r, []bond.BatchType{bond.BatchTypeReadWrite, bond.BatchTypeReadWrite, bond.BatchTypeWriteOnly}))
		}
		var err error
		cause := y.run(p.how, p.at, func(ctx context.Context) { err = w.run(ctx, h.t, b) })
		what := fmt.Sprintf("%s of %s cancelled %s %d of %d/%d", w.name, ids(w.rows), p.how, p.at, ticks, events)
		c.Eval(1)
		c.Count("write", 1)
		c.Distinct(fmt.Sprint(w.name, p.how, minI(p.at, 30), y.x.site, err != nil, minI(len(w.rows), 20), b != nil))
		left := false
		switch p.how {
		case "before":
			left = true
			if y.x.count["ser"]+y.x.count["conflict"] > 0 {
				c.Fail("goes-on", "%s: rows were processed", what)
			}
		case "look-up":
			left = b == nil // a batch may need fewer look-ups
		default:
			if y.x.before != nil {
				left = y.x.site == "ser" && total["ser"] > y.x.before["ser"]+1 || y.x.n > 0 && events-p.at > 2*most && b == nil
				if y.x.count["ser"] > y.x.before["ser"]+1 {
					c.Fail("goes-on", "%s: %d further rows written", what, y.x.count["ser"]-y.x.before["ser"])
				}
			}
		}
		if b != nil {
			if err == nil && cause == nil {
				c.Harness("%s: not cancelled", what)
			}
			_ = b.Close()
		}
		if err != nil {
			y.identify(what, err, cause)
		} else if left {
			c.Fail("goes-on", "%s succeeds", what)
		} else if b == nil {
			// it was complete already
			w.model(h.m)
			if a, b := h.e.keySpaceDiff(h.m); a+b != "" {
				c.Fail("effect", "%s succeeds but isn't complete: %s%s", what, a, b)
			}
			c.Count("complete", 1)
			return
		}
		if d := diffKV(before, h.e.dumpAll()); d != "" {
			c.Fail("effect", "%s failed and has an effect: %s", what, d)
		}
	}
	y.x.reset(-1, nil)
	if err := w.run(bg, h.t, nil); err != nil {
		c.Fail("after", "%s of %s after being cancelled: %v", w.name, ids(w.rows), err)
	}
	w.model(h.m)
	if a, b := h.e.keySpaceDiff(h.m); a+b != "" {
		c.Fail("after", "%s of %s after being cancelled: %s%s", w.name, ids(w.rows), a, b)
	}
}
