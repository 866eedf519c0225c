package model

import (
	"math/big"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
	"verifsim/core"
)

// Builder turns content into real values, through constructors and operation
// sequences chosen by the simulation.
type Builder struct {
	S         *core.Sim
	Immutable bool // only immutable collections (sparse lists aside)
	Simple    bool // one constructor per kind, no choices
	NilNulls  bool // nulls inside lists may be nil elements
	Mutable   bool // only mutable collections at the top
	// MutableEntries: entries of mutable maps and sparse lists accept updates
	MutableEntries bool
}

func (b *Builder) Value(n *Node) value.Value {
	switch n.K {
	case Null:
		switch b.draw(4) {
		case 1:
			return value.Nil()
		case 2:
			return value.ParseNull("null")
		}
		return value.Null
	case Bool:
		return value.Boolean(n.B)
	case Long:
		return value.Long(n.I)
	case Double:
		return value.Double(n.F)
	case BigInt:
		return value.BigInt(new(big.Int).Set(n.Big))
	case Decimal:
		return value.Decimal(decimal.NewFromBigInt(n.Big, n.Exp))
	case Utf8:
		switch b.draw(8) {
		case 1:
			return value.Str(n.S)
		case 2:
			return value.Stringf("%s", n.S)
		}
		return value.Utf8(n.S)
	case Raw:
		return value.Raw([]byte(n.S), !b.Simple && b.S.Draw(2) == 1)
	case Ext:
		return value.Unknown(append([]byte{n.Tag}, n.S...))
	case List:
		return b.list(n)
	case Sparse:
		return b.sparse(n)
	case Map:
		return b.mp(n)
	}
	core.Harness("node kind %d", n.K)
	return nil
}

func (b *Builder) elems(n *Node) []value.Value {
	vs := make([]value.Value, len(n.Elems), len(n.Elems)+b.spare())
	for i, e := range n.Elems {
		if e.K == Null && b.NilNulls && b.S.Draw(2) == 1 {
			b.S.Hit("build:nil-element")
			continue
		}
		vs[i] = b.Value(e)
	}
	return vs
}

// spare capacity makes appends share backing arrays.
func (b *Builder) spare() int {
	if b.Simple {
		return 0
	}
	return b.S.Draw(3)
}

func (b *Builder) draw(n int) int {
	if b.Simple {
		return 0
	}
	return b.S.Draw(n)
}

// variant decides whether the collection about to be built is mutable.
func (b *Builder) variant() bool {
	if b.Simple {
		return false // and write nothing: tasks share simple builders
	}
	m := b.Mutable
	b.Mutable = false
	return m || !b.Immutable && b.draw(2) == 1
}

func (b *Builder) list(n *Node) value.Value {
	mut := b.variant()
	vs := b.elems(n)
	how := b.draw(5)
	if len(vs) > 60 {
		how = 0
	}
	switch how {
	case 1: // append one by one
		l := value.EmptyList(!mut)
		for _, v := range vs {
			l = l.Append(v)
		}
		return l
	case 2: // insert from the back
		l := value.EmptyList(!mut)
		for i := len(vs) - 1; i >= 0; i-- {
			l = l.InsertAt(0, vs[i])
		}
		return l
	case 3: // overwrite and shrink
		l := value.EmptyList(!mut)
		for range vs {
			l = l.Append(value.Utf8("old"))
		}
		l = l.Append(value.True)
		for i, v := range vs {
			l = l.PutAt(i, v)
		}
		return l.RemoveAt(len(vs))
	case 4:
		l := value.EmptyList(!mut)
		k := b.S.Draw(len(vs) + 1)
		if k > 0 {
			l = l.InsertAll(0, append([]value.Value(nil), vs[:k]...))
		}
		if k < len(vs) {
			l = l.InsertAll(k, append([]value.Value(nil), vs[k:]...))
		}
		return l
	}
	if mut {
		if len(vs) == 1 && b.draw(2) == 1 {
			return value.Single(vs[0])
		}
		if b.draw(2) == 1 {
			return value.Tuple(vs...)
		}
		return value.MutableList(vs)
	}
	if len(vs) == 0 && b.draw(2) == 1 {
		return value.EmptyImmutableList()
	}
	return value.ImmutableList(vs)
}

func (b *Builder) sparse(n *Node) value.Value {
	if b.Mutable {
		b.Mutable = false
	}
	vs := b.elems(n)
	item := func(i int) value.ListItem {
		if b.draw(2) == 1 && !b.MutableEntries {
			return value.ImmutableItem(n.Idx[i], vs[i])
		}
		return value.MutableItem(n.Idx[i], vs[i])
	}
	how := b.draw(5)
	if len(vs) > 60 {
		how = 0
	}
	dup := false
	for i := 1; i < len(n.Idx); i++ {
		dup = dup || n.Idx[i] == n.Idx[i-1]
	}
	switch how {
	case 1:
		l := value.EmptySparseList()
		for i := len(vs) - 1; i >= 0; i-- {
			l = l.InsertAt(n.Idx[i], vs[i])
		}
		return l
	case 2:
		if dup {
			break
		}
		l := value.EmptySparseList()
		for _, i := range b.perm(len(vs)) {
			l = l.PutAt(n.Idx[i], vs[i])
		}
		return l
	case 3:
		if dup {
			break
		}
		items := make([]value.ListItem, 0, len(vs))
		for _, i := range b.perm(len(vs)) {
			items = append(items, item(i))
		}
		return value.SparseList(items, false)
	case 4: // from a dense list with holes
		if dup || len(vs) == 0 || n.Idx[0] < 0 || n.Idx[len(vs)-1] > 60 {
			break
		}
		dense := make([]value.Value, n.Idx[len(vs)-1]+1, n.Idx[len(vs)-1]+1+b.spare())
		for i, k := range n.Idx {
			dense[k] = vs[i]
			if vs[i] == nil {
				dense[k] = value.Null // nil would be a hole
			}
		}
		return value.SparseListOf(dense)
	}
	items := make([]value.ListItem, 0, len(vs)+b.spare())
	for i := range vs {
		items = append(items, item(i))
	}
	return value.SparseList(items, true)
}

func (b *Builder) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := b.S.Draw(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func (b *Builder) mp(n *Node) value.Value {
	mut := b.variant()
	vs := b.elems(n)
	entry := func(i int) value.MapEntry {
		if mut && (b.draw(3) > 0 || b.MutableEntries) {
			return value.MutableEntry(n.Keys[i], vs[i])
		}
		return value.ImmutableEntry(n.Keys[i], vs[i])
	}
	empty := func() value.Map { return value.EmptyMap(!mut) }
	dup := false
	for i := 1; i < len(n.Keys); i++ {
		dup = dup || n.Keys[i] == n.Keys[i-1]
	}
	how := b.draw(7)
	if len(vs) > 60 && how != 3 {
		how = 0
	}
	switch how {
	case 1: // insert from the back, duplicates go in front
		m := empty()
		for i := len(vs) - 1; i >= 0; i-- {
			m = m.Insert(n.Keys[i], vs[i])
		}
		return m
	case 2: // put in any order, some overwritten first
		if dup {
			break
		}
		m := empty()
		for _, i := range b.perm(len(vs)) {
			if b.S.Draw(4) == 3 {
				m = m.Put(n.Keys[i], value.Utf8("old"))
			}
			m = m.Put(n.Keys[i], vs[i])
		}
		return m
	case 3: // from a Go map
		if dup {
			break
		}
		src := map[string]value.Value{}
		for i := range vs {
			src[n.Keys[i]] = vs[i]
		}
		if mut {
			return value.SortedMapOf(src)
		}
		return value.ImmutableMapOf(src)
	case 4: // unsorted entries
		if dup {
			break
		}
		var es []value.MapEntry
		for _, i := range b.perm(len(vs)) {
			es = append(es, entry(i))
		}
		if mut {
			return value.SortedMap(es, false)
		}
		return value.ImmutableMap(es, false)
	case 5: // copy of the other variant
		var es []value.MapEntry
		for i := range vs {
			es = append(es, value.MutableEntry(n.Keys[i], vs[i]))
		}
		if mut {
			return value.SortedMapCopyOf(value.ImmutableMap(es, true))
		}
		return value.ImmutableMapCopyOf(value.SortedMap(es, true))
	case 6: // grow, then delete what does not belong
		m := empty()
		for i := len(vs) - 1; i >= 0; i-- {
			m = m.Insert(n.Keys[i], vs[i])
		}
		k := "zz-extra"
		for i := range n.Keys {
			if n.Keys[i] == k {
				return m
			}
		}
		m = m.InsertAll(k, []value.Value{value.True, value.False})
		if b.S.Draw(2) == 1 {
			return m.DeleteAll(k)
		}
		return m.Remove(k).Remove(k)
	}
	es := make([]value.MapEntry, 0, len(vs)+b.spare())
	for i := range vs {
		es = append(es, entry(i))
	}
	if mut {
		return value.SortedMap(es, true)
	}
	return value.ImmutableMap(es, true)
}
