package hutils

import (
	"gotor/utils/ds"
	"gotor/zzverif/vsym"
)

type lnode = ds.Node[int64]

// listIs compares a list with the nodes it must have, first to last.
func listIs(l *ds.LinkedList[int64], want []*lnode, data map[*lnode]int64) {
	cur := l.Head()
	var prev *lnode
	for _, w := range want {
		vsym.Assert(cur == w, "a list does not enumerate its nodes, most recently added first")
		vsym.Assert(cur.Data == data[w], "a node's data changed")
		vsym.Assert(cur.Prev() == prev, "a back link is wrong")
		prev = cur
		cur = cur.Next()
	}
	vsym.Assert(cur == nil, "a list has more nodes than were added")
}

func without(l []*lnode, n *lnode) []*lnode {
	var r []*lnode
	for _, x := range l {
		if x != n {
			r = append(r, x)
		}
	}
	return r
}

// C36_List: sequences of operations on two lists.
//
//gosym:bounds every sequence of 7 (thorough 8) operations on two lists: add data, add a node that was removed from either list, remove any node, clear; arbitrary data
//gosym:cpu 200 2500
//gosym:paths 500000 8000000
func C36_List() {
	steps := 7
	if vsym.Thorough() {
		steps = 8
	}
	ls := []ds.LinkedList[int64]{ds.Make[int64](), {}}
	model := make([][]*lnode, 2)
	data := map[*lnode]int64{}
	var free []*lnode
	for s := 0; s < steps; s++ {
		k := 0
		if s > 0 {
			k = vsym.Choose("list", 2)
		}
		l := &ls[k]
		n := len(model[k])
		ops := 2 + n // add, clear, remove each
		if len(free) > 0 {
			ops++
		}
		switch o := vsym.Choose("op", ops); {
		case o == 0:
			d := vsym.Int64("data")
			nd := l.AddDataFront(d)
			vsym.Assert(nd != nil && nd.Data == d, "an added node does not have its data")
			data[nd] = d
			model[k] = append([]*lnode{nd}, model[k]...)
		case o == 1:
			l.Clear()
			free = append(free, model[k]...)
			model[k] = nil
		case o < 2+n:
			nd := model[k][o-2]
			l.Remove(nd)
			model[k] = without(model[k], nd)
			free = append(free, nd)
		default:
			nd := free[len(free)-1]
			free = free[:len(free)-1]
			l.AddNodeFront(nd)
			model[k] = append([]*lnode{nd}, model[k]...)
		}
		listIs(&ls[0], model[0], data)
		listIs(&ls[1], model[1], data)
	}
}

type item struct {
	key string
	id  int
}

func (i *item) Key() string { return i.key }

// C36_Set: sequences of operations on a keyed set.
//
//gosym:bounds every sequence of 5 (thorough 6) operations (add, remove, has, with items) on items with keys of 0-1 arbitrary bytes
//gosym:cpu 200 2500
//gosym:paths 30000 400000
func C36_Set() {
	steps := 5
	if vsym.Thorough() {
		steps = 6
	}
	set := ds.MakeSet[*item]()
	var model []*item
	find := func(k string) int {
		for i, m := range model {
			if m.key == k {
				return i
			}
		}
		return -1
	}
	for s := 0; s < steps; s++ {
		it := &item{vsym.String("key", vsym.Choose("len", 2)), s}
		at := find(it.key)
		switch vsym.Choose("op", 3) {
		case 0:
			vsym.Assert(set.Add(it) == (at < 0), "add does not say whether it changed the set")
			if at < 0 {
				model = append(model, it)
			}
		case 1:
			vsym.Assert(set.Remove(it) == (at >= 0), "remove does not say whether it changed the set")
			if at >= 0 {
				model = append(append([]*item(nil), model[:at]...), model[at+1:]...)
			}
		case 2:
			vsym.Assert(set.Has(it) == (at >= 0), "membership is wrong")
		}
		vsym.Assert(set.Size() == len(model), "the size is wrong")
		items := set.Items()
		vsym.Assert(len(items) == len(model), "the items are not those of the set")
		seen := make([]bool, len(model))
		for _, x := range items {
			vsym.Assert(x != nil, "an item is nil")
			i := find(x.key)
			vsym.Assert(i >= 0 && !seen[i], "the items are not those of the set")
			vsym.Assert(x == model[i], "an item is not the one added")
			seen[i] = true
		}
		for _, m := range model {
			vsym.Assert(set.Has(m), "a member is lost")
		}
	}
}
