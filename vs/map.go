package vs

import "sync"

// Map is sync.Map with a Range in a fixed order: insertion order, or reversed
// as a controlled choice.
type Map struct {
	real sync.Map
	mu   sync.Mutex
	keys []interface{}
}

//go:norace
func (m *Map) add(k interface{}) {
	raceOff()
	m.mu.Lock()
	for _, x := range m.keys {
		if x == k {
			m.mu.Unlock()
			raceOn()
			return
		}
	}
	m.keys = append(append([]interface{}(nil), m.keys...), k)
	m.mu.Unlock()
	raceOn()
}

//go:norace
func (m *Map) del(k interface{}) {
	raceOff()
	m.mu.Lock()
	for i, x := range m.keys {
		if x == k {
			n := append([]interface{}(nil), m.keys[:i]...)
			m.keys = append(n, m.keys[i+1:]...)
			break
		}
	}
	m.mu.Unlock()
	raceOn()
}

//go:norace
func (m *Map) snap() []interface{} {
	raceOff()
	m.mu.Lock()
	k := m.keys
	m.mu.Unlock()
	raceOn()
	return k
}

func (m *Map) Load(k interface{}) (interface{}, bool) { return m.real.Load(k) }
func (m *Map) Store(k, v interface{})                 { m.add(k); m.real.Store(k, v) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.add(k)
	return m.real.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	v, ok := m.real.LoadAndDelete(k)
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.add(k)
	return m.real.Swap(k, v)
}
func (m *Map) CompareAndSwap(k, old, new interface{}) bool { return m.real.CompareAndSwap(k, old, new) }
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	ok := m.real.CompareAndDelete(k, old)
	if ok {
		m.del(k)
	}
	return ok
}
func (m *Map) Clear() {
	for _, k := range m.snap() {
		m.Delete(k)
	}
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	if !Controlled() {
		m.real.Range(f)
		return
	}
	keys := m.snap()
	rev := len(keys) > 1 && Pick(-4, 2) == 1
	for i := range keys {
		if rev {
			i = len(keys) - 1 - i
		}
		v, ok := m.real.Load(keys[i])
		if ok && !f(keys[i], v) {
			return
		}
	}
}
