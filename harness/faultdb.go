package main

import (
	"sync"

	"github.com/go-bond/bond"
)

// failPlan refuses the storage write number at (from 0) of those made through
// the databases and batches that share it, and the later ones too if sticky.
type failPlan struct {
	mu     sync.Mutex
	n, at  int
	sticky bool
	err    error
	fired  int
	last   string
}

func (p *failPlan) due(what string) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	k := p.n
	p.n++
	if p.at < 0 || k < p.at || k > p.at && !p.sticky {
		return nil
	}
	p.fired++
	p.last = what
	return p.err
}

// start begins to count anew.
func (p *failPlan) start(at int, sticky bool, err error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.n, p.at, p.sticky, p.err, p.fired, p.last = 0, at, sticky, err, 0, ""
}

func (p *failPlan) count() (n, fired int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.n, p.fired
}

// failDB makes batches that follow the plan.
type failDB struct {
	bond.DB
	p *failPlan
}

func (d *failDB) Batch(t bond.BatchType) bond.Batch { return &failBatch{d.DB.Batch(t), d.p} }

func (d *failDB) Set(k, v []byte, o bond.WriteOptions, b ...bond.Batch) error {
	if err := d.p.due("set"); err != nil {
		return err
	}
	return d.DB.Set(k, v, o, b...)
}

func (d *failDB) Delete(k []byte, o bond.WriteOptions, b ...bond.Batch) error {
	if err := d.p.due("delete"); err != nil {
		return err
	}
	return d.DB.Delete(k, o, b...)
}

func (d *failDB) DeleteRange(k, v []byte, o bond.WriteOptions, b ...bond.Batch) error {
	if err := d.p.due("delete range"); err != nil {
		return err
	}
	return d.DB.DeleteRange(k, v, o, b...)
}

type failBatch struct {
	bond.Batch
	p *failPlan
}

func (b *failBatch) Set(k, v []byte, o bond.WriteOptions, x ...bond.Batch) error {
	if err := b.p.due("set in a batch"); err != nil {
		return err
	}
	return b.Batch.Set(k, v, o, x...)
}

func (b *failBatch) Delete(k []byte, o bond.WriteOptions, x ...bond.Batch) error {
	if err := b.p.due("delete in a batch"); err != nil {
		return err
	}
	return b.Batch.Delete(k, o, x...)
}

func (b *failBatch) DeleteRange(k, v []byte, o bond.WriteOptions, x ...bond.Batch) error {
	if err := b.p.due("delete range in a batch"); err != nil {
		return err
	}
	return b.Batch.DeleteRange(k, v, o, x...)
}

func (b *failBatch) Commit(o bond.WriteOptions) error {
	if err := b.p.due("commit"); err != nil {
		return err
	}
	return b.Batch.Commit(o)
}
