package models

import (
	"context"
	"encoding/binary"
	"errors"
	"io"
	"sort"
	"sync"

	"gotor/zzverif/vsym"
)

// Standard library functions that work by reflection.

type anySort struct {
	x    any
	less func(i, j int) bool
}

func (a anySort) Len() int           { return vsym.AnyLen(a.x) }
func (a anySort) Less(i, j int) bool { return a.less(i, j) }
func (a anySort) Swap(i, j int)      { vsym.AnySwap(a.x, i, j) }

// SortSlice: sort.Sort makes the same comparisons and swaps.
func SortSlice(x any, less func(i, j int) bool)       { sort.Sort(anySort{x, less}) }
func SortSliceStable(x any, less func(i, j int) bool) { sort.Stable(anySort{x, less}) }
func SortSliceIsSorted(x any, less func(i, j int) bool) bool {
	return sort.IsSorted(anySort{x, less})
}

func bigOrder(o binary.ByteOrder) bool { return o.Uint16([]byte{0, 1}) == 1 }

func BinaryWrite(w io.Writer, order binary.ByteOrder, data any) error {
	if vsym.AnySize(data) < 0 {
		return errors.New("binary.Write: some values are not fixed-sized in type")
	}
	_, err := w.Write(vsym.AnyBytes(data, bigOrder(order)))
	return err
}

func BinaryRead(r io.Reader, order binary.ByteOrder, data any) error {
	n := vsym.AnySize(data)
	if n < 0 {
		return errors.New("binary.Read: invalid type")
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	vsym.AnySet(data, b, bigOrder(order))
	return nil
}

func BinarySize(data any) int { return vsym.AnySize(data) }

type valueCtx struct {
	context.Context
	key, val any
}

func (c *valueCtx) Value(key any) any {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

func ContextWithValue(parent context.Context, key, val any) context.Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if key == nil {
		panic("nil key")
	}
	return &valueCtx{parent, key, val}
}

func ErrorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	if target == nil {
		panic("errors: target cannot be nil")
	}
	for {
		if vsym.AnyAssign(target, err) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return errorsIs(err, target, vsym.AnyComparable(target))
}

func errorsIs(err, target error, comparable bool) bool {
	for {
		if comparable && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errorsIs(e, target, comparable) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// sync.Map: one locked map for each.
type syncMap struct {
	mu sync.Mutex
	m  map[any]any
}

var syncMaps = map[*sync.Map]*syncMap{}

func theMap(p *sync.Map) *syncMap {
	x := syncMaps[p]
	if x == nil {
		x = &syncMap{m: map[any]any{}}
		syncMaps[p] = x
	}
	return x
}

func SyncMapLoad(p *sync.Map, k any) (any, bool) {
	x := theMap(p)
	x.mu.Lock()
	defer x.mu.Unlock()
	v, ok := x.m[k]
	return v, ok
}

func SyncMapStore(p *sync.Map, k, v any) { SyncMapSwap(p, k, v) }

func SyncMapSwap(p *sync.Map, k, v any) (any, bool) {
	x := theMap(p)
	x.mu.Lock()
	defer x.mu.Unlock()
	o, ok := x.m[k]
	x.m[k] = v
	return o, ok
}

func SyncMapLoadOrStore(p *sync.Map, k, v any) (any, bool) {
	x := theMap(p)
	x.mu.Lock()
	defer x.mu.Unlock()
	if o, ok := x.m[k]; ok {
		return o, true
	}
	x.m[k] = v
	return v, false
}

func SyncMapLoadAndDelete(p *sync.Map, k any) (any, bool) {
	x := theMap(p)
	x.mu.Lock()
	defer x.mu.Unlock()
	o, ok := x.m[k]
	delete(x.m, k)
	return o, ok
}

func SyncMapDelete(p *sync.Map, k any) { SyncMapLoadAndDelete(p, k) }

func SyncMapCompareAndSwap(p *sync.Map, k, old, v any) bool {
	x := theMap(p)
	x.mu.Lock()
	defer x.mu.Unlock()
	o, ok := x.m[k]
	if !ok || o != old {
		return false
	}
	x.m[k] = v
	return true
}

func SyncMapRange(p *sync.Map, f func(k, v any) bool) {
	x := theMap(p)
	x.mu.Lock()
	var ks, vs []any
	for k, v := range x.m {
		ks, vs = append(ks, k), append(vs, v)
	}
	x.mu.Unlock()
	for i, k := range ks {
		if !f(k, vs[i]) {
			return
		}
	}
}
