//go:build sched && race && go1.21

// Package sched runs goroutines one at a time, in an order that a controller decides. It adds no
// happens-before edges by itself, so the race detector judges the program as if it ran freely.
package sched

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"time"
	"unsafe"
)

type kind int32

const (
	kReady   kind = iota
	kLock         // until nobody holds obj
	kPending      // same, and readers have to wait meanwhile
	kRLock        // until no writer holds or waits for obj
	kZero         // until obj.N is 0
	kNotFull      // until obj.N is less than limit
	kOnce         // until obj.N is not 1
	kSignal       // until signalled
	kChan         // until ready() returns true
	kChoose       // a value is chosen
	kFinished
)

// Obj is the state of a synchronization object. Its fields are only used by the goroutine that runs.
type Obj struct {
	W    bool
	R, N int32
	A, B byte // addresses for the race detector
	// last and shared identify what happened to the object.
	last, shared uint64
}

type task struct {
	wake      chan struct{}
	kind      kind
	obj       *Obj
	limit     int32
	signalled bool
	ready     func() bool
	n, answer int
	// last identifies everything that happened before this point of the goroutine.
	last uint64
}

const maxTasks = 512

var (
	active      bool
	tasks       [maxTasks]task
	ntasks      int
	cur         int
	steps       int
	ctl         = make(chan struct{}, 1)
	failure     string
	unsupported string
	epoch       int
)

// Active returns whether a controlled execution is running.
//
//go:norace
func Active() bool { return active }

//go:norace
func pause() {
	t := &tasks[cur]
	runtime.RaceDisable()
	ctl <- struct{}{}
	<-t.wake
	runtime.RaceEnable()
}

func mix(a, b uint64) uint64 {
	h := (a ^ 0x9e3779b97f4a7c15) * 0xff51afd7ed558ccd
	h ^= h >> 32
	h = (h ^ b) * 0xc4ceb9fe1a85ec53
	return h ^ h>>29
}

// event records an operation that depends on all earlier operations on the object.
//
//go:norace
func event(o *Obj, op uint64) {
	t := &tasks[cur]
	t.last = mix(mix(t.last, op), mix(o.last, o.shared))
	o.last, o.shared = t.last, 0
}

// sharedEvent records an operation that commutes with others of its kind.
//
//go:norace
func sharedEvent(o *Obj, op uint64) {
	t := &tasks[cur]
	t.last = mix(mix(t.last, op), o.last)
	o.shared += mix(t.last, 1)
}

// State identifies the order of all operations on each object so far, and which goroutine ran last. Executions
// without data races continue in the same way from equal states.
//
//go:norace
func State() uint64 {
	sum := uint64(0)
	for i := 0; i < ntasks; i++ {
		h := tasks[i].last
		if tasks[i].kind == kFinished {
			h = mix(h, 3)
		}
		sum += mix(h, 2)
	}
	return mix(sum, tasks[cur].last)
}

// global stands for everything that is not told apart.
var global Obj

// Global is a point with an operation that is ordered with all others of its kind.
//
//go:norace
func Global() {
	if !active {
		return
	}
	Point()
	event(&global, 4)
}

// Point lets another goroutine run.
//
//go:norace
func Point() {
	if !active {
		return
	}
	tasks[cur].kind = kReady
	pause()
	tasks[cur].last = mix(tasks[cur].last, 5)
}

//go:norace
func block(k kind, o *Obj) {
	t := &tasks[cur]
	t.kind, t.obj = k, o
	pause()
	t.kind, t.obj = kReady, nil
}

// Choose makes the controller choose one of n alternatives.
//
//go:norace
func Choose(n int) int {
	if !active || n < 2 {
		return 0
	}
	t := &tasks[cur]
	t.kind, t.n = kChoose, n
	pause()
	t.kind = kReady
	t.last = mix(t.last, uint64(t.answer)+100)
	return t.answer
}

// Unsupported gives up on controlling this execution.
//
//go:norace
func Unsupported(what string) {
	if !active {
		return
	}
	unsupported = what
	tasks[cur].kind = kFinished
	pause() // never resumed
}

// Fail ends the execution with a failure.
//
//go:norace
func Fail(what string) {
	if failure == "" {
		failure = what
	}
	tasks[cur].kind = kFinished
	pause() // never resumed
}

// Go starts a goroutine.
//
//go:norace
func Go(fn func()) {
	if !active {
		go fn()
		return
	}
	if ntasks == maxTasks {
		Unsupported("too many goroutines")
	}
	id := ntasks
	ntasks++
	t := &tasks[id]
	t.kind, t.obj, t.signalled, t.ready = kReady, nil, false, nil
	t.wake = make(chan struct{}, 1)
	if id == 0 {
		t.last = 1
	} else {
		t.last = mix(tasks[cur].last, 6)
		tasks[cur].last = mix(tasks[cur].last, 7)
	}
	go run(id, epoch, fn)
}

//go:norace
func run(id, ep int, fn func()) {
	t := &tasks[id]
	runtime.RaceDisable()
	<-t.wake
	runtime.RaceEnable()
	defer finish(id, ep)
	fn()
}

//go:norace
func finish(id, ep int) {
	if p := recover(); p != nil && failure == "" {
		failure = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
	}
	tasks[id].kind = kFinished
	runtime.RaceReleaseMerge(unsafe.Pointer(&ended))
	runtime.RaceDisable()
	ctl <- struct{}{}
	runtime.RaceEnable()
}

// ended orders everything that finished goroutines did with the end of Run.
var ended byte

//go:norace
func enabled(i int) bool {
	t := &tasks[i]
	switch t.kind {
	case kReady, kChoose:
		return true
	case kLock, kPending:
		return !t.obj.W && t.obj.R == 0
	case kRLock:
		if t.obj.W {
			return false
		}
		for j := 0; j < ntasks; j++ {
			if tasks[j].kind == kPending && tasks[j].obj == t.obj {
				return false
			}
		}
		return true
	case kZero:
		return t.obj.N == 0
	case kNotFull:
		return t.obj.N < t.limit
	case kOnce:
		return t.obj.N != 1
	case kSignal:
		return t.signalled
	case kChan:
		return t.ready()
	}
	return false
}

// Outcome of a controlled execution.
type Outcome struct {
	// Failure is a panic, deadlock or livelock.
	Failure string
	// Unsupported is set if the execution could not be controlled.
	Unsupported string
	Steps       int
}

// Run executes fn and all goroutines it starts. choose answers the choices: which goroutine continues, with the one
// that ran last as the first alternative. preempt is set if that one could continue.
//
//go:norace
func Run(fn func(), maxSteps int, choose func(n int, preempt bool) int) Outcome {
	ntasks, cur, steps, failure, unsupported = 0, 0, 0, "", ""
	epoch++
	ctl = make(chan struct{}, 1)
	chans = [64]chanState{}
	global = Obj{}
	active = true
	Go(fn)
	var list [maxTasks]int
	for failure == "" && unsupported == "" {
		n := 0
		current := enabled(cur)
		if current {
			list[0], n = cur, 1
		}
		for i := 0; i < ntasks; i++ {
			if (i != cur || !current) && enabled(i) {
				list[n] = i
				n++
			}
		}
		if n == 0 {
			if tasks[0].kind != kFinished {
				failure = "deadlock: no goroutine can continue"
			}
			break
		}
		if steps++; steps > maxSteps {
			failure = fmt.Sprintf("no end after %d steps", maxSteps)
			break
		}
		next := list[0]
		if current && tasks[cur].kind == kChoose {
			tasks[cur].answer = choose(tasks[cur].n, true)
		} else if n > 1 {
			next = list[choose(n, current)]
		}
		cur = next
		t := &tasks[cur]
		runtime.RaceDisable()
		t.wake <- struct{}{}
		timeout := false
		select {
		case <-ctl:
		default:
			timer := time.NewTimer(20 * time.Second)
			select {
			case <-ctl:
			case <-timer.C:
				timeout = true
			}
			timer.Stop()
		}
		runtime.RaceEnable()
		if timeout {
			unsupported = "a goroutine blocks outside of the scheduler"
		}
	}
	active = false
	runtime.RaceAcquire(unsafe.Pointer(&ended))
	return Outcome{failure, unsupported, steps}
}

// Lock and the following implement mutexes.
//
//go:norace
func Lock(o *Obj) {
	block(kLock, o)
	event(o, 10)
	o.W = true
	runtime.RaceAcquire(unsafe.Pointer(&o.A))
}

//go:norace
func TryLock(o *Obj) bool {
	Point()
	event(o, 11)
	if o.W || o.R > 0 {
		return false
	}
	o.W = true
	runtime.RaceAcquire(unsafe.Pointer(&o.A))
	runtime.RaceAcquire(unsafe.Pointer(&o.B))
	return true
}

//go:norace
func Unlock(o *Obj) {
	if !o.W {
		Fail("unlock of unlocked mutex")
	}
	runtime.RaceRelease(unsafe.Pointer(&o.A))
	event(o, 12)
	o.W = false
}

// WLock locks for writing.
//
//go:norace
func WLock(o *Obj) {
	Point()
	if o.W || o.R > 0 {
		event(o, 14)
		block(kPending, o)
	}
	event(o, 13)
	o.W = true
	runtime.RaceAcquire(unsafe.Pointer(&o.A))
	runtime.RaceAcquire(unsafe.Pointer(&o.B))
}

//go:norace
func RLock(o *Obj) {
	block(kRLock, o)
	sharedEvent(o, 15)
	o.R++
	runtime.RaceAcquire(unsafe.Pointer(&o.A))
}

//go:norace
func TryRLock(o *Obj) bool {
	Point()
	event(o, 16)
	if o.W {
		return false
	}
	o.R++
	runtime.RaceAcquire(unsafe.Pointer(&o.A))
	return true
}

//go:norace
func RUnlock(o *Obj) {
	if o.R <= 0 {
		Fail("RUnlock of unlocked RWMutex")
	}
	runtime.RaceReleaseMerge(unsafe.Pointer(&o.B))
	sharedEvent(o, 17)
	o.R--
}

// Add and Wait implement wait groups.
//
//go:norace
func Add(o *Obj, delta int) {
	if delta < 0 {
		runtime.RaceReleaseMerge(unsafe.Pointer(&o.A))
	}
	sharedEvent(o, 18)
	first := o.N == 0 && delta > 0
	o.N += int32(delta)
	if first {
		// The first one has to be ordered with Wait.
		runtime.RaceRead(unsafe.Pointer(&o.B))
	}
	if o.N < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

//go:norace
func Wait(o *Obj) {
	if o.N > 0 {
		runtime.RaceWrite(unsafe.Pointer(&o.B))
	}
	block(kZero, o)
	event(o, 20)
	runtime.RaceAcquire(unsafe.Pointer(&o.A))
}

// AcquireN and ReleaseN implement semaphores.
//
//go:norace
func AcquireN(o *Obj, limit int) {
	tasks[cur].limit = int32(limit)
	block(kNotFull, o)
	event(o, 21)
	o.N++
	runtime.RaceAcquire(unsafe.Pointer(&o.A))
}

//go:norace
func TryAcquireN(o *Obj, limit int) bool {
	Point()
	event(o, 22)
	if o.N >= int32(limit) {
		return false
	}
	o.N++
	runtime.RaceAcquire(unsafe.Pointer(&o.A))
	return true
}

//go:norace
func ReleaseN(o *Obj) {
	runtime.RaceReleaseMerge(unsafe.Pointer(&o.A))
	event(o, 23)
	o.N--
}

// Once runs fn the first time.
//
//go:norace
func Once(o *Obj, fn func()) {
	block(kOnce, o)
	event(o, 24)
	if o.N == 2 {
		runtime.RaceAcquire(unsafe.Pointer(&o.A))
		return
	}
	o.N = 1
	defer onceDone(o)
	fn()
}

//go:norace
func onceDone(o *Obj) {
	runtime.RaceRelease(unsafe.Pointer(&o.A))
	event(o, 25)
	o.N = 2
}

// CondWait and CondSignal implement condition variables.
//
//go:norace
func CondWait(o *Obj, unlock, lock func()) {
	t := &tasks[cur]
	t.signalled = false
	// Nobody else runs between unlocking and waiting.
	event(o, 26)
	unlock()
	block(kSignal, o)
	runtime.RaceAcquire(unsafe.Pointer(&o.A))
	event(o, 27)
	lock()
}

//go:norace
func CondSignal(o *Obj, all bool) {
	Point()
	event(o, 28)
	runtime.RaceReleaseMerge(unsafe.Pointer(&o.A))
	for i := 0; i < ntasks; i++ {
		if t := &tasks[i]; t.kind == kSignal && t.obj == o && !t.signalled {
			t.signalled = true
			if !all {
				return
			}
		}
	}
}

// chanState is what cannot be seen from the outside of a channel.
type chanState struct {
	ch     unsafe.Pointer
	closed bool
	full   bool
	val    interface{}
	A      byte
}

var chans [64]chanState

//go:norace
func stateOf(p unsafe.Pointer) *chanState {
	for i := range chans {
		if chans[i].ch == p {
			return &chans[i]
		}
		if chans[i].ch == nil {
			chans[i].ch = p
			return &chans[i]
		}
	}
	Unsupported("too many channels")
	return nil
}

//go:norace
func blockUntil(ready func() bool) {
	t := &tasks[cur]
	t.kind, t.ready = kChan, ready
	event(&global, 29)
	pause()
	event(&global, 30)
	t.kind, t.ready = kReady, nil
}

// Send returns a function that sends on a channel.
//
//go:norace
func Send[T any](ch chan<- T) func(T) {
	return func(v T) { send(ch, v) }
}

//go:norace
func send[T any](ch chan<- T, v T) {
	if !active {
		ch <- v
		return
	}
	if ch == nil {
		blockUntil(never)
	}
	s := stateOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
	if cap(ch) > 0 {
		blockUntil(func() bool { return s.closed || len(ch) < cap(ch) })
		ch <- v // panics if it is closed
		return
	}
	blockUntil(func() bool { return s.closed || !s.full })
	if s.closed {
		panic("send on closed channel")
	}
	runtime.RaceReleaseMerge(unsafe.Pointer(&s.A))
	s.full, s.val = true, v
	blockUntil(func() bool { return !s.full })
	runtime.RaceAcquire(unsafe.Pointer(&s.A))
}

func never() bool { return false }

// Recv2 receives from a channel.
//
//go:norace
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	if !active {
		v, ok = <-ch
		return
	}
	if ch == nil {
		blockUntil(never)
	}
	s := stateOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
	if cap(ch) > 0 {
		blockUntil(func() bool { return s.closed || len(ch) > 0 })
		v, ok = <-ch
		return
	}
	got := false
	blockUntil(func() bool {
		if s.closed || s.full || got {
			return true
		}
		// It may be a channel of a package that is not controlled.
		select {
		case v, ok = <-ch:
			got = true
		default:
		}
		return got
	})
	if got {
		return
	}
	if !s.full {
		v, ok = <-ch
		return
	}
	runtime.RaceAcquire(unsafe.Pointer(&s.A))
	runtime.RaceReleaseMerge(unsafe.Pointer(&s.A))
	v, _ = s.val.(T)
	s.full, s.val = false, nil
	return v, true
}

// Recv receives from a channel.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close closes a channel.
//
//go:norace
func Close[T any](ch chan<- T) {
	if active && ch != nil {
		Global()
		stateOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch))).closed = true
	}
	close(ch)
}

// Map iterates over a map in an order that the controller decides.
type Map[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// Iter starts to iterate over a map.
func Iter[M ~map[K]V, K comparable, V any](m M) *Map[K, V] {
	it := &Map[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	keys := it.keys
	sort.Slice(keys, func(i, j int) bool { return less(reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])) })
	if Choose(min2(len(keys))) == 1 {
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return it
}

// Iter3 does that too. It declares the variables of the loop.
func Iter3[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *Map[K, V]) {
	it = Iter(m)
	return
}

// Next gets the next entry. Deleted ones are left out.
func (it *Map[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		key := it.keys[0]
		it.keys = it.keys[1:]
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// Chan iterates over a channel.
type Chan[T any] struct{ ch <-chan T }

// IterChan starts to receive from a channel.
func IterChan[T any](ch <-chan T) *Chan[T] { return &Chan[T]{ch} }

// IterChan2 does that too. It declares the variable of the loop.
func IterChan2[T any](ch <-chan T) (v T, it *Chan[T]) { return v, &Chan[T]{ch} }

// Next receives the next value.
func (it *Chan[T]) Next(v *T) bool {
	val, ok := Recv2(it.ch)
	if ok && v != nil {
		*v = val
	}
	return ok
}

func min2(n int) int {
	if n > 2 {
		return 2
	}
	return n
}

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	}
	return false
}
