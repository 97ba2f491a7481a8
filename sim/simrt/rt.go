// Package simrt is the run-time half of the instrumentation that the check
// weaves into a build-time overlay of the repository under test. It imports
// nothing from the repository. With no simulation active every function here
// is a cheap no-op, so instrumented package initialisation behaves normally.
package simrt

import (
	"fmt"
	"runtime/debug"
	"sort"
	"sync"
)

// MaxPoints bounds the coverage bitmap.
const MaxPoints = 1 << 16

var (
	// Active is true while a simulated run is in progress.
	Active bool
	// Steps counts instrumentation points and simulated I/O in this run.
	Steps int64
	// Budget is the step budget of the run; exceeding it parks the goroutine
	// for ever and marks the run as making no progress.
	Budget int64
	// Exceeded is set when the budget ran out.
	Exceeded bool
	// Hits is the set of points reached since the process started.
	Hits [MaxPoints]bool
	// Yield, when set, is called at each point (scheduler hook).
	Yield func(id int)
	// Perm, when set, chooses the iteration order of maps: it returns a
	// permutation of [0,n).
	Perm func(n int) []int
)

// Where is the stack of the step that exceeded the budget.
var Where string

func exceed() {
	if !Exceeded {
		Exceeded = true
		Where = string(debug.Stack())
	}
	select {}
}

// Step accounts one unit of progress.
func Step() {
	Steps++
	if Steps > Budget && Active {
		exceed()
	}
}

// P is an instrumentation point: every statement of the code under test
// passes through one.
func P(id int) {
	if !Active {
		return
	}
	Hits[id&(MaxPoints-1)] = true
	Steps++
	if Steps > Budget {
		exceed()
	}
	if Yield != nil {
		Yield(id)
	}
}

// Iter walks a map in an order chosen by the simulator.
type Iter[M ~map[K]V, K comparable, V any] struct {
	m    M
	keys []K
	i    int
}

// Range starts an iteration.
func Range[M ~map[K]V, K comparable, V any](m M) *Iter[M, K, V] {
	it := &Iter[M, K, V]{m: m}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if Active && Perm != nil && len(it.keys) > 1 {
		sortKeys(it.keys)
		p := Perm(len(it.keys))
		out := make([]K, len(it.keys))
		for i, j := range p {
			out[i] = it.keys[j]
		}
		it.keys = out
	}
	return it
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	default:
		strs := make(map[K]string, len(keys))
		for _, k := range keys {
			strs[k] = fmt.Sprintf("%T%v", k, k)
		}
		sort.SliceStable(keys, func(i, j int) bool { return strs[keys[i]] < strs[keys[j]] })
	}
}

func (it *Iter[M, K, V]) next() (k K, v V, ok bool) {
	for it.i < len(it.keys) {
		k = it.keys[it.i]
		it.i++
		// an entry deleted during the iteration is not produced
		if v, ok = it.m[k]; ok {
			return k, v, true
		}
	}
	return k, v, false
}

// Next stores the next key and value.
func (it *Iter[M, K, V]) Next(k *K, v *V) bool {
	a, b, ok := it.next()
	if ok {
		*k, *v = a, b
	}
	return ok
}

// NextK stores the next key.
func (it *Iter[M, K, V]) NextK(k *K) bool {
	a, _, ok := it.next()
	if ok {
		*k = a
	}
	return ok
}

// NextV stores the next value.
func (it *Iter[M, K, V]) NextV(v *V) bool {
	_, b, ok := it.next()
	if ok {
		*v = b
	}
	return ok
}

// Next0 advances.
func (it *Iter[M, K, V]) Next0() bool {
	_, _, ok := it.next()
	return ok
}

// RangeKV starts an iteration and gives zero loop variables.
func RangeKV[M ~map[K]V, K comparable, V any](m M) (it *Iter[M, K, V], k K, v V) {
	return Range[M, K, V](m), k, v
}

// RangeK starts an iteration and gives a zero key variable.
func RangeK[M ~map[K]V, K comparable, V any](m M) (it *Iter[M, K, V], k K) {
	return Range[M, K, V](m), k
}

// RangeV starts an iteration and gives a zero value variable.
func RangeV[M ~map[K]V, K comparable, V any](m M) (it *Iter[M, K, V], v V) {
	return Range[M, K, V](m), v
}

// Mutex is a mutual exclusion lock whose waiters block on a channel, so that a
// waiting goroutine counts as blocked for the simulator's quiescence check.
// The overlay substitutes it for sync.Mutex in the code under test.
type Mutex struct {
	mu  sync.Mutex
	on  bool
	que []chan struct{}
}

// Lock acquires the mutex.
func (m *Mutex) Lock() {
	m.mu.Lock()
	if !m.on {
		m.on = true
		m.mu.Unlock()
		return
	}
	c := make(chan struct{})
	m.que = append(m.que, c)
	m.mu.Unlock()
	<-c
}

// TryLock tries to acquire the mutex.
func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.on {
		return false
	}
	m.on = true
	return true
}

// Unlock releases the mutex.
func (m *Mutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.on {
		panic("sync: unlock of unlocked mutex")
	}
	if len(m.que) > 0 {
		c := m.que[0]
		m.que = m.que[1:]
		close(c)
		return
	}
	m.on = false
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	que     []rwWaiter
}

type rwWaiter struct {
	c chan struct{}
	w bool
}

func (m *RWMutex) grant() {
	for len(m.que) > 0 {
		q := m.que[0]
		if q.w {
			if m.writer || m.readers > 0 {
				return
			}
			m.writer = true
		} else {
			if m.writer {
				return
			}
			m.readers++
		}
		m.que = m.que[1:]
		close(q.c)
	}
}

func (m *RWMutex) wait(w bool) {
	m.mu.Lock()
	q := rwWaiter{make(chan struct{}), w}
	m.que = append(m.que, q)
	m.grant()
	m.mu.Unlock()
	<-q.c
}

// Lock acquires the write lock.
func (m *RWMutex) Lock() { m.wait(true) }

// RLock acquires a read lock.
func (m *RWMutex) RLock() { m.wait(false) }

// TryLock tries to acquire the write lock.
func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 || len(m.que) > 0 {
		return false
	}
	m.writer = true
	return true
}

// TryRLock tries to acquire a read lock.
func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || len(m.que) > 0 {
		return false
	}
	m.readers++
	return true
}

// Unlock releases the write lock.
func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.grant()
}

// RUnlock releases a read lock.
func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.grant()
}

// RLocker returns a Locker over the read lock.
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
