package st

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"
)

// ErrInjected is what a failing access returns.
var ErrInjected = errors.New("injected storage failure")

// Errors are errors a storage may return.
var Errors = []error{
	ErrInjected, io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrClosed, os.ErrDeadlineExceeded,
	context.Canceled, context.DeadlineExceeded, syscall.EAGAIN, syscall.EINTR, syscall.ENOENT, syscall.ENOSPC, syscall.EEXIST,
	errors.New("not found"), errors.New("no node 9"), errors.New("already exists"), errors.New(""), errors.New("EOF"), benign{}, &benign{},
	fmt.Errorf("reading: %w", io.EOF), fmt.Errorf("reading: %w", os.ErrNotExist),
	errors.New("writing beyond storage border when reading entry in storage: 9"), errors.New("writing beyond storage border when updating entry in storage: 9"),
}

// benign is an error that says nothing is wrong.
type benign struct{}

func (benign) Error() string    { return "temporarily unavailable" }
func (benign) Temporary() bool  { return true }
func (benign) Timeout() bool    { return true }
func (benign) NotFound() bool   { return true }
func (benign) IsNotFound() bool { return true }
func (benign) Retryable() bool  { return true }

func (p *Probe) failure() error {
	if p.Err != nil {
		return p.Err
	}
	return ErrInjected
}

// Crash is the panic value with which a cut-off process ends.
type Crash struct{}

// Runaway is the panic value of an operation that exceeds its budget.
type Runaway struct{ Calls int }

const (
	NoFault     = iota
	FailBefore  // the access fails and has no effect
	FailAfter   // the access has its effect, but fails
	CrashBefore // the process dies before the access
	CrashAfter  // the process dies after the access
	FailFrom    // this and all later accesses fail without effect
)

// Kinds of storage accesses.
const (
	KHas = iota
	KCreate
	KReadSources
	KReadTargets
	KSetReference
	KGetReference
	KConnect
	KDisconnect
	KDelete
)

var kindNames = []string{"Has", "Create", "ReadSources", "ReadTargets", "SetReference", "GetReference", "Connect", "Disconnect", "Delete"}

func Mutates(kind int) bool {
	switch kind {
	case KCreate, KSetReference, KConnect, KDisconnect, KDelete:
		return true
	}
	return false
}

// Probe wraps a storage.
type Probe struct {
	Inner  Storage
	Budget int // accesses allowed until Reset, 0: unlimited

	Calls     int // accesses since Reset
	Creates   int
	Mutations int
	Volume    int // neighbours read since Reset

	FaultAt  int // the FaultAt-th access since Reset (from 1) is faulty
	Fault    int
	Hit      bool
	HitKind  int
	hitTrace string
	Err      error // the error of a failing access, if not ErrInjected
	Answer   bool  // an access that fails after its effect also gives the answer

	Kinds  []byte // if Record, kinds of accesses since Reset
	Record bool

	Watch  bool // check the contract
	Quiet  bool // keep track, but accept everything
	Issues []string
	given  map[uint]bool
	next   map[uint]uint
	prev   map[uint]uint
}

func NewProbe(inner Storage) *Probe { return &Probe{Inner: inner, Budget: 3000000} }

// StartWatch turns on contract monitoring; the storage must be empty.
func (p *Probe) StartWatch() {
	p.Watch = true
	p.given = map[uint]bool{}
	p.next = map[uint]uint{}
	p.prev = map[uint]uint{}
}

func (p *Probe) Reset() {
	p.Calls, p.Creates, p.Mutations, p.Volume = 0, 0, 0, 0
	p.FaultAt, p.Fault, p.Hit = 0, NoFault, false
	p.Kinds = p.Kinds[:0]
}

// Arm makes the n-th access from now faulty.
func (p *Probe) Arm(n int, fault int) {
	p.Reset()
	p.FaultAt, p.Fault = n, fault
}

func (p *Probe) HitName() string { return kindNames[p.HitKind] }

// enter returns whether the access fails before, and whether it fails after.
func (p *Probe) enter(kind int) (before bool, after bool) {
	p.Calls++
	if kind == KCreate {
		p.Creates++
	}
	if Mutates(kind) {
		p.Mutations++
	}
	if p.Record {
		p.Kinds = append(p.Kinds, byte(kind))
	}
	if p.Budget > 0 && p.Calls > p.Budget {
		panic(Runaway{p.Calls})
	}
	if p.Fault == NoFault || p.Calls < p.FaultAt || (p.Calls > p.FaultAt && p.Fault != FailFrom) {
		return false, false
	}
	p.Hit = true
	if p.Calls == p.FaultAt {
		p.HitKind = kind
	}
	switch p.Fault {
	case FailBefore, FailFrom:
		return true, false
	case FailAfter:
		return false, true
	case CrashBefore:
		panic(Crash{})
	}
	return false, false
}

func (p *Probe) leave() {
	if p.Fault == CrashAfter && p.Calls == p.FaultAt {
		panic(Crash{})
	}
}

func (p *Probe) issue(format string, args ...interface{}) {
	if len(p.Issues) < 20 && !p.Quiet {
		p.Issues = append(p.Issues, fmt.Sprintf(format, args...))
	}
}

func (p *Probe) uses(kind int, ids ...uint) {
	if !p.Watch {
		return
	}
	for _, id := range ids {
		if !p.given[id] {
			p.issue("%s uses identifier %d, which the storage never handed out", kindNames[kind], id)
		}
	}
}

func (p *Probe) Has(source uint) (bool, error) {
	before, after := p.enter(KHas)
	if before {
		return false, p.failure()
	}
	r, err := p.Inner.Has(source)
	p.leave()
	if after {
		return r && p.Answer, p.failure()
	}
	return r, err
}

func (p *Probe) Create() (uint, error) {
	before, after := p.enter(KCreate)
	if before {
		return 0, p.failure()
	}
	r, err := p.Inner.Create()
	if p.Watch && err == nil {
		p.given[r] = true
	}
	p.leave()
	if after && p.Answer {
		return r, p.failure()
	}
	if after {
		return 0, p.failure()
	}
	return r, err
}

func (p *Probe) ReadSources(target uint) ([]uint, error) {
	p.uses(KReadSources, target)
	before, after := p.enter(KReadSources)
	if before {
		return nil, p.failure()
	}
	r, err := p.Inner.ReadSources(target)
	p.Volume += len(r)
	p.leave()
	if after && p.Answer {
		return r, p.failure()
	}
	if after {
		return nil, p.failure()
	}
	return r, err
}

func (p *Probe) ReadTargets(source uint) ([]uint, error) {
	p.uses(KReadTargets, source)
	before, after := p.enter(KReadTargets)
	if before {
		return nil, p.failure()
	}
	r, err := p.Inner.ReadTargets(source)
	p.Volume += len(r)
	p.leave()
	if after && p.Answer {
		return r, p.failure()
	}
	if after {
		return nil, p.failure()
	}
	return r, err
}

func (p *Probe) SetReference(source uint, reference uint) error {
	p.uses(KSetReference, source, reference)
	before, after := p.enter(KSetReference)
	if before {
		return p.failure()
	}
	if p.Watch {
		if n, ok := p.next[source]; ok && n != reference {
			p.issue("SetReference redirects the reference of node %d from %d to %d", source, n, reference)
		}
		if n, ok := p.prev[reference]; ok && n != source {
			p.issue("SetReference makes node %d, referred to by %d, referred to by %d", reference, n, source)
		}
	}
	err := p.Inner.SetReference(source, reference)
	if p.Watch && err == nil {
		p.next[source] = reference
		p.prev[reference] = source
	}
	p.leave()
	if after {
		return p.failure()
	}
	return err
}

func (p *Probe) GetReference(source uint) (uint, uint, error) {
	p.uses(KGetReference, source)
	before, after := p.enter(KGetReference)
	if before {
		return 0, 0, p.failure()
	}
	a, b, err := p.Inner.GetReference(source)
	p.leave()
	if after && p.Answer {
		return a, b, p.failure()
	}
	if after {
		return 0, 0, p.failure()
	}
	return a, b, err
}

func (p *Probe) Connect(source uint, target uint) error {
	p.uses(KConnect, source, target)
	before, after := p.enter(KConnect)
	if before {
		return p.failure()
	}
	err := p.Inner.Connect(source, target)
	p.leave()
	if after {
		return p.failure()
	}
	return err
}

func (p *Probe) Disconnect(source uint, target uint) error {
	p.uses(KDisconnect, source, target)
	if p.Watch {
		p.issue("Disconnect(%d, %d) removes a connection", source, target)
	}
	before, after := p.enter(KDisconnect)
	if before {
		return p.failure()
	}
	err := p.Inner.Disconnect(source, target)
	p.leave()
	if after {
		return p.failure()
	}
	return err
}

func (p *Probe) Delete(source uint) error {
	p.uses(KDelete, source)
	if p.Watch {
		p.issue("Delete(%d) removes a node", source)
	}
	before, after := p.enter(KDelete)
	if before {
		return p.failure()
	}
	err := p.Inner.Delete(source)
	p.leave()
	if after {
		return p.failure()
	}
	return err
}
