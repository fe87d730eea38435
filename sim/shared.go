package main

import (
	"context"
	"crypto/rand"
	"errors"
	"fmt"
	"runtime"
	"time"

	"bondsim/prog"

	"github.com/go-bond/bond"
	"github.com/google/uuid"
)

// One batch shared by all tasks through a SyncBatch. While a task is inside, it
// alone works with the batch, so every answer is exact.

const sharedB = 9

type sharedBatch struct {
	sb     *bond.SyncBatch
	bs     *batchState
	inside int // 1 + the task inside
	calls  int
}

var errInside = errors.New("refused by the function")

func (e *Engine) openShared() {
	t := &task{e: e, batch: map[int]*batchState{}}
	t.newBatch(&prog.Op{K: "bnew", B: sharedB, RW: true})
	bs := t.batch[sharedB]
	e.shared = &sharedBatch{sb: bond.NewSyncBatch(bs.b), bs: bs}
}

// closeShared commits what all tasks put into the batch.
func (e *Engine) closeShared() {
	t := &task{e: e, batch: map[int]*batchState{sharedB: e.shared.bs}}
	if e.p.Seed&7 != 0 {
		t.commitBatch(&prog.Op{K: "bcommit", B: sharedB, Sync: true})
	}
	t.closeBatch(sharedB)
	e.shared = nil
}

func init() {
	extraOps["sync"] = func(t *task, op *prog.Op) {
		e := t.e
		s := e.shared
		if s == nil {
			return
		}
		// every task takes it from its context
		ctx := bond.ContextWithSyncBatch(context.Background(), s.sb)
		if bond.ContextRetrieveBatch(ctx) != nil {
			failNow("context", "a context with a shared batch holds a batch")
		}
		if op.Mode == 1 {
			ctx = bond.ContextWithBatch(ctx, s.bs.b)
		}
		sb := bond.ContextRetrieveSyncBatch(ctx)
		if sb != s.sb || op.Mode == 1 && bond.ContextRetrieveBatch(ctx) != s.bs.b {
			failNow("context", "a context gave back another batch")
		}
		ran := 0
		f := func(b bond.Batch) error {
			ran++
			e.alive()
			if s.inside != 0 {
				failNow("overlap", "task %d got the shared batch while task %d was using it", t.n, s.inside-1)
			}
			s.inside = t.n + 1
			s.calls++
			if b != s.bs.b {
				failNow("shared-batch", "task %d was given another batch", t.n)
			}
			t.batch[sharedB] = s.bs
			for i := range op.Sub {
				t.do(&op.Sub[i])
				if s.inside != t.n+1 {
					failNow("overlap", "task %d was given the shared batch while task %d was using it", s.inside-1, t.n)
				}
				runtime.Gosched()
			}
			s.bs = t.batch[sharedB]
			delete(t.batch, sharedB)
			s.inside = 0
			e.res.Checks++
			switch op.Mode {
			case 1:
				return errInside
			case 2:
				panic(errInside)
			case 3:
				runtime.Goexit()
			}
			return nil
		}
		e.begin()
		var err error
		var caught any
		returned := false
		if op.Mode == 3 {
			// the function ends its goroutine
			done := make(chan struct{}, 1)
			e.spawn(func() {
				err = sb.WithSync(f)
				returned = true
			}, done)
			<-done
		} else {
			func() {
				defer func() {
					if caught = recover(); caught != nil && caught != any(errInside) {
						panic(caught)
					}
				}()
				err = sb.WithSync(f)
				returned = true
			}()
		}
		e.ended()
		if e.fail != nil {
			return
		}
		e.trace("task %d shared call, mode %d -> %v, panic %v", t.n, op.Mode, err, caught)
		if ran != 1 {
			failNow("shared-calls", "the function ran %d times in one call", ran)
		}
		bad := ""
		switch op.Mode {
		case 0:
			if err != nil || !returned {
				bad = "a nil error"
			}
		case 1:
			if err != errInside {
				bad = "the error of the function"
			}
		case 2:
			if caught != any(errInside) {
				bad = "the panic of the function"
			}
		case 3:
			if returned {
				bad = "no return"
			}
		}
		if bad != "" {
			failNow("shared-result", "WithSync returned %v (panic %v), expected %s", err, caught, bad)
		}
	}
	extraOps["onclose"] = func(t *task, op *prog.Op) {
		for i := 0; i <= op.N; i++ {
			t.e.onClose()
		}
	}
	extraOps["next"] = func(t *task, op *prog.Op) { t.nextID(op) }
	extraOps["uuid"] = func(t *task, op *prog.Op) { t.nextUUID(op) }
	extraOps["norand"] = func(t *task, op *prog.Op) {
		t.e.noRand += op.N
		t.e.trace("task %d the next %d reads of entropy fail", t.n, t.e.noRand)
	}
	extraOps["clock"] = func(t *task, op *prog.Op) {
		t.e.wall += int64(op.N) * 1e6
		runtime.SimWall(t.e.wall)
		t.e.trace("task %d wall clock moved by %d ms to %d", t.n, op.N, time.Now().Unix())
	}
	scenarios["sequence"] = sequence
}

type issued struct {
	id         uint64
	start, end uint64
	task       int
}

// sequence hands out numbers to concurrent callers while the clock is moved.
func sequence(e *Engine) {
	e.world = 1
	worlds[1] = e.fs
	e.crashCh = make(chan struct{})
	e.seq = &bond.NumberSequence{}
	e.uuids = map[[16]byte]int{}
	rnd := &prog.RNG{S: e.p.Seed ^ 0x5eed}
	rand.SimRead = func(b []byte) (int, error) {
		e.entropy++
		if e.noRand > 0 {
			e.noRand--
			e.randWasOff = true
			e.st.Fired["entropy"]++
			return 0, errNoEntropy
		}
		n := len(b)
		if n > 1 && rnd.P(0.2) {
			n = 1 + rnd.N(n-1) // a short read
		}
		for i := range b[:n] {
			b[i] = byte(rnd.N(256))
		}
		return n, nil
	}
	defer func() { rand.SimRead = nil }()
	done := make(chan struct{}, 64)
	tasks := 0
	for i, ops := range e.p.Phases[0].Tasks {
		t := &task{e: e, n: i, batch: map[int]*batchState{}}
		ops := ops
		tasks++
		e.spawn(func() { t.run(ops) }, done)
	}
	if !e.await(done, tasks, func() string { return "sequence" }) {
		return
	}
	byID := map[uint64]issued{}
	for _, x := range e.issued {
		if o, dup := byID[x.id]; dup {
			e.fail = &failure{"sequence-dup", fmt.Sprintf("number %d was handed out twice, to task %d and task %d", x.id, o.task, x.task)}
			return
		}
		byID[x.id] = x
	}
	// a call that ended before another began got the smaller number
	for _, x := range e.issued {
		for _, y := range e.issued {
			if x.end < y.start && x.id >= y.id {
				e.fail = &failure{"sequence-order", fmt.Sprintf("task %d was given %d, later task %d was given %d", x.task, x.id, y.task, y.id)}
				return
			}
		}
	}
	e.res.Checks += 1 + len(e.issued)
}

func (t *task) nextID(op *prog.Op) {
	e := t.e
	n := op.N
	if n > 1000 {
		e.overflow = true // from here on a second may run out of numbers
		runtime.SimSetStepLimit(4_000_000_000)
	}
	var last uint64
	full := false
	for i := 0; i < n; i++ {
		e.clock++
		x := issued{task: t.n, start: e.clock}
		id, err := e.seq.Next()
		e.clock++
		x.id, x.end = id, e.clock
		if err != nil {
			if n <= 1000 && !e.overflow {
				failNow("sequence-error", "no number after few calls: %v", err)
			}
			e.trace("task %d: %v", t.n, err)
			full = true
			break
		}
		if n > 1000 {
			// a long run of one task: compared with the one before only
			if i > 0 && id <= last {
				failNow("sequence-order", "task %d was given %d after %d", t.n, id, last)
			}
			last = id
			if i > 0 && i < n-1 {
				continue
			}
		}
		e.issued = append(e.issued, x)
		e.trace("task %d number %d (second %d, number %d)", t.n, id, e.seq.Timestamp(id), e.seq.SequenceNumber(id))
	}
	if full && n > 1000 {
		// the next second has numbers again
		e.wall += 365 * 86400 * 1e9
		runtime.SimWall(e.wall)
		e.clock++
		x := issued{task: t.n, start: e.clock}
		id, err := e.seq.Next()
		e.clock++
		x.id, x.end = id, e.clock
		if err != nil {
			failNow("sequence-error", "no number in a new second: %v", err)
		}
		if id <= last {
			failNow("sequence-order", "task %d was given %d after %d", t.n, id, last)
		}
		e.issued = append(e.issued, x)
	}
}

var errNoEntropy = errors.New("no entropy")

// nextUUID draws unique ids. Without entropy there is an error and no id; with
// it every id is a new one, well formed and made of the entropy read for it.
func (t *task) nextUUID(op *prog.Op) {
	e := t.e
	var gen bond.UniqueKeyGenerator[uuid.UUID] = &bond.UUIDGenerator{}
	for i := 0; i < op.N; i++ {
		reads, armed := e.entropy, e.noRand
		id, err := gen.Next()
		if err != nil {
			// another task may have taken the failing reads this one saw
			if !e.randWasOff {
				failNow("uuid-error", "no id though entropy could be read: %v", err)
			}
			e.trace("task %d uuid: %v", t.n, err)
			continue
		}
		if armed > 0 && e.noRand > 0 && e.entropy > reads {
			failNow("uuid-made-up", "an id was handed out though the entropy for it could not be read: %v", id)
		}
		if o, dup := e.uuids[id]; dup {
			failNow("uuid-dup", "id %v was handed out twice, to task %d and task %d", id, o, t.n)
		}
		if id == uuid.Nil || id.Version() != 4 || id.Variant() != uuid.RFC4122 {
			failNow("uuid-form", "id %v is not a random one (version %v, variant %v)", id, id.Version(), id.Variant())
		}
		e.uuids[id] = t.n
		e.trace("task %d uuid %v", t.n, id)
	}
}
