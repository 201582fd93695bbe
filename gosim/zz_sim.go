package eth_kzg

/*
#include <stdint.h>
#include <string.h>
*/
import "C"

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"unsafe"
)

// Deterministic simulation of the Go binding. One goroutine runs at a time, handing over only at the
// points below; a seeded scheduler picks who goes on and when a garbage collection (and the finalizers it
// makes due) happens. The binding is the real one, the native library under it is a stand-in.

type SimOp struct {
	Op    string `json:"op"`   // new, blob, drop, yield, temp (new + one call, nothing kept)
	Slot  int    `json:"slot"` // variable shared by all goroutines
	Size  int    `json:"size"` // blob length, -1: nil
	Tag   uint64 `json:"tag"`
	Err   string `json:"err"`             // the native library answers with this error
	Reuse bool   `json:"reuse,omitempty"` // the blob lies where the last one lay
}
type SimPlan struct {
	Seed  uint64    `json:"seed"`
	Gor   [][]SimOp `json:"gor"`
	GC    int       `json:"gc"` // one hand-over in GC collects
	Slots int       `json:"slots"`
	Picks []int     `json:"picks,omitempty"` // replayed decisions
}
type SimViol struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	At     []int  `json:"at"`
}
type SimResult struct {
	Hash  string         `json:"hash"`
	Cnt   map[string]int `json:"cnt"`
	Viol  *SimViol       `json:"viol"`
	Picks []int          `json:"picks"`
	Trace []string       `json:"trace"`
}
type ctxState struct {
	made, freed bool
	inuse       int
}
type pending struct {
	err  string
	out  [48]byte
	hash uint64
	seen bool
}
type gor struct {
	ch   chan struct{}
	done bool
	cur  *pending // the call this goroutine is inside
	at   []int
	buf  []byte
}

var (
	plan  SimPlan
	ctxs  = map[uint64]*ctxState{}
	msgs  = map[uint64]int{}
	gors  []*gor
	cur   int
	main_ = make(chan struct{})
	res   SimResult
	rnd   uint64
	npick int

	mu         sync.Mutex
	late       []uint64 // contexts freed by finalizers of the collection under way
	collecting bool

	hash uint64 = 0xcbf29ce484222325
)

func next() uint64 {
	rnd += 0x9e3779b97f4a7c15
	z := rnd
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func pick(n int) int {
	var v int
	if npick < len(plan.Picks) {
		v = plan.Picks[npick] % n
	} else if len(plan.Picks) > 0 {
		v = 0
	} else {
		v = int(next() % uint64(n))
	}
	npick++
	res.Picks = append(res.Picks, v)
	return v
}
func ev(f string, a ...any) {
	// padded: an allocation below 16 bytes could share its block with a context, which has no pointers
	// of Go's own, and delay that context's finalizer
	s := fmt.Sprintf("%-32s", fmt.Sprintf(f, a...))
	for i := 0; i < len(s); i++ {
		hash = (hash ^ uint64(s[i])) * 0x100000001b3
	}
	if len(res.Trace) < 400 {
		res.Trace = append(res.Trace, s)
	}
}
func fail(class, f string, a ...any) {
	if res.Viol == nil {
		var at []int
		if cur >= 0 && cur < len(gors) {
			at = append(at, gors[cur].at...)
		}
		res.Viol = &SimViol{class, fmt.Sprintf(f, a...), at}
	}
}

// collect runs the collector until every finalizer that is due has run
func collect() {
	res.Cnt["fault.gc"]++
	ev("gc")
	mu.Lock()
	collecting = true
	mu.Unlock()
	for i := 0; i < 2; i++ {
		runtime.GC()
		done := make(chan struct{})
		sentinel(done)
		runtime.GC()
		<-done
	}
	// the runtime may queue the finalizers of one collection in any order: take their effects in a fixed one
	mu.Lock()
	l := late
	late, collecting = nil, false
	mu.Unlock()
	sort.Slice(l, func(a, b int) bool { return l[a] < l[b] })
	for _, i := range l {
		freed(i)
	}
}

//go:noinline
func sentinel(done chan struct{}) {
	type s struct{ c [4]chan struct{} }
	x := &s{}
	runtime.SetFinalizer(x, func(*s) { close(done) })
}

// point: the simulator decides what happens before the running goroutine goes on
func point(what string) {
	if plan.GC > 0 && pick(plan.GC) == plan.GC-1 {
		collect()
	}
	me := cur
	var c []int
	for i, g := range gors {
		if !g.done {
			c = append(c, i)
		}
	}
	n := c[pick(len(c))]
	if n == me {
		return
	}
	res.Cnt["switches"]++
	ev("%s: %d -> %d", what, me, n)
	cur = n
	gors[n].ch <- struct{}{}
	<-gors[me].ch
}

//export sim_enter
func sim_enter(kind C.int, id C.uint64_t, arg C.uint64_t) {
	k, i := int(kind), uint64(id)
	if k == 1 {
		mu.Lock()
		c := collecting
		if c {
			late = append(late, i)
		}
		mu.Unlock()
		if !c {
			freed(i)
		}
		return
	}
	ev("enter %d ctx %d", k, i)
	switch k {
	case 0:
		ctxs[i] = &ctxState{made: true}
		res.Cnt["native.new"]++
		point("new")
	case 2:
		s := ctxs[i]
		res.Cnt["native.blob"]++
		if s == nil {
			fail("unknown-context", "a call was made on something that is not a context")
			return
		}
		if s.freed {
			fail("use-after-free", "a call was made on context %d after it was freed", i)
		}
		s.inuse++
		g := gors[cur]
		if g.cur != nil {
			g.cur.seen = true
			if g.cur.hash != uint64(arg) {
				fail("wrong-input", "the library got other bytes than the caller passed")
			}
		}
		point("inside")
		if s.freed {
			fail("freed-in-use", "context %d was freed during the call", i)
		}
	}
}

func freed(i uint64) {
	ev("free ctx %d", i)
	s := ctxs[i]
	res.Cnt["native.free"]++
	if s == nil {
		fail("freed-unknown", "the native library was asked to free something that is not a context")
	} else if s.freed {
		fail("double-free", "context %d was freed a second time", i)
	} else if s.inuse > 0 {
		fail("freed-in-use", "context %d was freed while %d call(s) were inside the library", i, s.inuse)
	}
	if s != nil {
		s.freed = true
	}
}

//export sim_exit
func sim_exit(kind C.int, id C.uint64_t) {
	if int(kind) == 2 {
		if s := ctxs[uint64(id)]; s != nil {
			point("leaving")
			if s.freed {
				fail("freed-in-use", "context %d was freed during the call", uint64(id))
			}
			s.inuse--
		}
	}
}

//export sim_outcome
func sim_outcome(id C.uint64_t, tag C.uint64_t, out *C.uint8_t, msg *C.char, max C.int) C.int {
	p := gors[cur].cur
	if p == nil {
		return 0
	}
	if p.err != "" {
		b := []byte(p.err)
		if len(b) > int(max)-1 {
			b = b[:int(max)-1]
		}
		d := unsafe.Slice((*byte)(unsafe.Pointer(msg)), int(max))
		copy(d, b)
		d[len(b)] = 0
		return 1
	}
	copy(unsafe.Slice((*byte)(unsafe.Pointer(out)), 48), p.out[:])
	return 0
}

//export sim_msg_made
func sim_msg_made(p C.uint64_t) { msgs[uint64(p)] = 1; res.Cnt["messages"]++ }

//export sim_msg_freed
func sim_msg_freed(p C.uint64_t) {
	if p == 0 {
		return
	}
	n, ok := msgs[uint64(p)]
	if !ok {
		fail("freed-unknown", "an error message the library never made was released")
	} else if n != 1 {
		fail("double-free", "an error message was released twice")
	}
	msgs[uint64(p)] = 2
}

func fnv(b []byte) uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, x := range b {
		h = (h ^ uint64(x)) * 0x100000001b3
	}
	return h
}
func blobOf(g *gor, o SimOp) []byte {
	if o.Size < 0 {
		return nil
	}
	b := make([]byte, o.Size)
	if o.Reuse && g != nil {
		// the goroutine's own memory, filled anew
		if g.buf == nil {
			g.buf = make([]byte, BytesPerBlob+64)
		}
		if o.Size <= len(g.buf) {
			res.Cnt["case.same-memory"]++
			b = g.buf[:o.Size:o.Size]
			for i := range b {
				b[i] = 0
			}
		}
	}
	x := o.Tag*2654435761 + 1
	for i := 0; i < len(b); i += 997 {
		x = x*6364136223846793005 + 1442695040888963407
		b[i] = byte(x >> 33)
	}
	if len(b) > 0 {
		b[len(b)-1] = byte(x)
	}
	return b
}

// what the call must do, prepared before it; the caller's references die where its code says they do
func prepare(g *gor, o SimOp, b []byte) *pending {
	p := &pending{err: o.Err, hash: fnv(b)}
	x := o.Tag ^ 0x1234567
	for i := range p.out {
		x = x*6364136223846793005 + 1442695040888963407
		p.out[i] = byte(x >> 40)
	}
	g.cur = p
	return p
}

// what the program was given and still has
type keptResult struct {
	b []byte
	s string
}

var kept []keptResult

func judge(g *gor, o SimOp, p *pending, before []byte, b []byte, out []byte, err error, pan any) {
	g.cur = nil
	res.Cnt["cases"]++
	ev("result %x %v", fnv(out), err != nil)
	if pan != nil {
		fail("panic", "BlobToKZGCommitment panicked: %v", pan)
		return
	}
	if hex.EncodeToString(before) != hex.EncodeToString(b) {
		fail("arguments-modified", "the caller's blob was modified")
	}
	if o.Size != BytesPerBlob {
		res.Cnt["fault.blob-size"]++
		if err == nil {
			fail("bad-arguments-accepted", "a blob of %d bytes gave no error", o.Size)
		}
		if p.seen {
			fail("bad-arguments-passed-on", "a blob of %d bytes reached the native library", o.Size)
		}
		return
	}
	if p.err != "" {
		res.Cnt["fault.native-error"]++
		if err == nil {
			fail("error-lost", "the native library failed (%s) and the caller got a nil error", p.err)
		}
		return
	}
	if err != nil {
		fail("spurious-error", "the native library succeeded, the caller got %v", err)
		return
	}
	if string(out) != string(p.out[:]) {
		fail("wrong-bytes", "the caller got other bytes than the library returned")
	}
	kept = append(kept, keptResult{out, string(out)})
	for _, k := range kept {
		if string(k.b) != k.s {
			fail("result-overwritten", "a commitment returned earlier changed")
		}
	}
	if !p.seen {
		fail("not-called", "success without calling the native library")
	}
}

//go:noinline
func callKept(slots []*DASContext, o SimOp, b []byte) (out []byte, err error, pan any) {
	defer func() { pan = recover() }()
	out, err = slots[o.Slot].BlobToKZGCommitment(b)
	return
}

// the slot's reference is taken away as the call begins: only the call itself keeps the context
//
//go:noinline
func callLast(slots []*DASContext, o SimOp, b []byte) (out []byte, err error, pan any) {
	defer func() { pan = recover() }()
	c := slots[o.Slot]
	slots[o.Slot] = nil
	out, err = c.BlobToKZGCommitment(b)
	return
}

//go:noinline
func callTemp(b []byte) (out []byte, err error, pan any) {
	defer func() { pan = recover() }()
	out, err = NewProverContext().BlobToKZGCommitment(b)
	return
}

//go:noinline
func makeCtx(slots []*DASContext, i int) {
	slots[i] = NewProverContext()
}

func body(gi int, slots []*DASContext) {
	g := gors[gi]
	<-g.ch
	for si, o := range plan.Gor[gi] {
		if res.Viol != nil {
			break
		}
		g.at = []int{gi, si}
		point("step")
		switch o.Op {
		case "new":
			makeCtx(slots, o.Slot)
		case "drop":
			slots[o.Slot] = nil
		case "blob", "last", "temp":
			if o.Op != "temp" && slots[o.Slot] == nil {
				continue
			}
			b := blobOf(g, o)
			before := append([]byte(nil), b...)
			p := prepare(g, o, b)
			var out []byte
			var err error
			var pan any
			if o.Op == "blob" {
				res.Cnt["op.kept"]++
				out, err, pan = callKept(slots, o, b)
			} else if o.Op == "last" {
				res.Cnt["op.last"]++
				out, err, pan = callLast(slots, o, b)
			} else {
				res.Cnt["op.temp"]++
				out, err, pan = callTemp(b)
			}
			judge(g, o, p, before, b, out, err, pan)
		}
	}
	g.done = true
	for i, x := range gors {
		if !x.done {
			cur = i
			x.ch <- struct{}{}
			return
		}
	}
	cur = -1
	main_ <- struct{}{}
}

//go:noinline
func runAll() {
	slots := make([]*DASContext, plan.Slots)
	for gi := range plan.Gor {
		gors = append(gors, &gor{ch: make(chan struct{})})
		_ = gi
	}
	for gi := range plan.Gor {
		go body(gi, slots)
	}
	gors[0].ch <- struct{}{}
	<-main_
}

func RunSim(js []byte) []byte {
	debug.SetGCPercent(-1)
	if err := json.Unmarshal(js, &plan); err != nil {
		panic(err)
	}
	res.Cnt = map[string]int{}
	rnd = plan.Seed
	runtime.GC() // no context shares a block with what was decoded above
	runAll()
	cur = -1
	kept = nil
	for _, g := range gors {
		g.buf = nil
	}
	for i := 0; i < 3; i++ {
		collect()
	}
	for i := uint64(1); i <= uint64(len(ctxs)); i++ {
		if s := ctxs[i]; s != nil && !s.freed {
			fail("context-leaked", "context %d was never freed", i)
		}
	}
	for _, n := range msgs {
		if n == 1 {
			fail("message-leaked", "an error message of the native library was never released")
		}
	}
	if len(plan.Gor) == 0 {
		fail("harness", "empty plan")
	}
	res.Hash = fmt.Sprintf("%016x", hash)
	_ = strings.TrimSpace("")
	o, _ := json.Marshal(res)
	return o
}
