package main

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/go-bond/bond/utils"
)

// poolMon observes the recycled buffers of bond: which are handed out, which
// are free. Free buffers hold a pattern, so that whoever reads one gets
// rubbish, whoever writes one is noticed when it is handed out again, and the
// race detector sees any use at the same time.
type poolMon struct {
	on    atomic.Bool
	mu    sync.Mutex
	byEnd map[uintptr]*poolItem // buffers sharing memory share their end
	out   map[any]int           // handed out and not returned, by pool
	gets  int
	puts  int
	grown int
	bad   string
}

type poolItem struct {
	free  bool
	bytes []byte // whole capacity; keeps the memory from being reused
	arr   [][]byte
	who   string
}

var pools = &poolMon{}

func init() { utils.PoolMonitor = pools }

const poolEdge = 32 << 10

var poolPattern = bytes.Repeat([]byte{0xdb}, 2*poolEdge)

// start forgets everything and begins to observe.
func (p *poolMon) start() {
	p.mu.Lock()
	p.byEnd, p.out, p.gets, p.puts, p.grown, p.bad = map[uintptr]*poolItem{}, map[any]int{}, 0, 0, 0, ""
	p.mu.Unlock()
	p.on.Store(true)
}

// stop ends observation and checks the free buffers once more.
func (p *poolMon) stop() {
	p.on.Store(false)
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, it := range p.byEnd {
		if it.free {
			p.checkFree(it)
		}
	}
	p.byEnd = nil
}

func (p *poolMon) report(f string, a ...any) {
	if p.bad == "" {
		p.bad = fmt.Sprintf(f, a...)
	}
}

// problem says what went wrong so far.
func (p *poolMon) problem() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.bad
}

// outstanding is the number of buffers handed out and not returned.
func (p *poolMon) outstanding() (n int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, k := range p.out {
		if k != 0 {
			n += k
		}
	}
	return n
}

func poolStack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(l, "github.com/go-bond/bond") && !strings.Contains(l, "/utils") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			out = append(out, strings.TrimPrefix(l, "github.com/go-bond/"))
		}
		if len(out) == 4 {
			break
		}
	}
	return strings.Join(out, " < ")
}

func (p *poolMon) who() string {
	if p.gets%64 == 0 {
		return poolStack()
	}
	return ""
}

func endOf(item any) (uintptr, []byte, [][]byte) {
	switch b := item.(type) {
	case []byte:
		b = b[:cap(b)]
		if len(b) > 0 {
			return uintptr(unsafe.Pointer(unsafe.SliceData(b))) + uintptr(len(b)), b, nil
		}
	case [][]byte:
		b = b[:cap(b)]
		if len(b) > 0 {
			return uintptr(unsafe.Pointer(unsafe.SliceData(b))) + uintptr(len(b))*unsafe.Sizeof(b[0]), nil, b
		}
	}
	return 0, nil, nil
}

func edges(b []byte) [][]byte {
	if len(b) <= 2*poolEdge {
		return [][]byte{b}
	}
	return [][]byte{b[:poolEdge], b[len(b)-poolEdge:]}
}

func (p *poolMon) checkFree(it *poolItem) {
	for _, e := range edges(it.bytes) {
		if !bytes.Equal(e, poolPattern[:len(e)]) {
			i := 0
			for e[i] == 0xdb {
				i++
			}
			p.report("a buffer of %d bytes was written (at %d: %x) after it was returned (%s)", len(it.bytes), i, clipB(e[i:]), it.who)
			return
		}
	}
	for i := 0; i < len(it.arr) && i < 100; i++ {
		if it.arr[i] != nil {
			p.report("an array of %d slices was written (at %d) after it was returned (%s)", len(it.arr), i, it.who)
			return
		}
	}
}

func (p *poolMon) OnGet(pool any, item any) {
	if !p.on.Load() {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.gets++
	p.out[pool]++
	end, b, a := endOf(item)
	if end == 0 {
		return
	}
	if it := p.byEnd[end]; it != nil {
		if !it.free {
			p.report("one buffer was handed out to two operations: %s (before: %s)", poolStack(), it.who)
		} else {
			p.checkFree(it)
		}
	}
	p.byEnd[end] = &poolItem{bytes: b, arr: a, who: p.who()}
}

func (p *poolMon) OnPut(pool any, item any) {
	if !p.on.Load() {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.puts++
	p.out[pool]--
	end, b, a := endOf(item)
	if end == 0 {
		return
	}
	it := p.byEnd[end]
	if it == nil {
		p.grown++
	} else if it.free {
		p.report("one buffer was returned twice: %s (before: %s)", poolStack(), it.who)
	}
	for _, e := range edges(b) {
		copy(e, poolPattern)
	}
	for i := 0; i < len(a) && i < 100; i++ {
		a[i] = nil
	}
	p.byEnd[end] = &poolItem{free: true, bytes: b, arr: a, who: p.who()}
}
