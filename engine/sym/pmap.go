package sym

// PMap is a persistent map from non-negative ints to values (32-way radix trie).
type PMap struct {
	root *pnode
	h    uint // bits covered by the root = 5*h
}

type pnode struct {
	kids [32]*pnode
	vals [32]Value
}

func (m PMap) Get(k int) (Value, bool) {
	if m.root == nil || (m.h < 12 && k>>(5*m.h) != 0) {
		return nil, false
	}
	n := m.root
	for s := 5 * (m.h - 1); s > 0; s -= 5 {
		n = n.kids[(k>>s)&31]
		if n == nil {
			return nil, false
		}
	}
	v := n.vals[k&31]
	return v, v != nil
}

func (m PMap) Set(k int, v Value) PMap {
	if m.root == nil {
		m.root = &pnode{}
		m.h = 1
	}
	for k>>(5*m.h) != 0 {
		r := &pnode{}
		r.kids[0] = m.root
		m.root = r
		m.h++
	}
	m.root = pset(m.root, 5*(m.h-1), k, v)
	return m
}

func pset(n *pnode, s uint, k int, v Value) *pnode {
	var c pnode
	if n != nil {
		c = *n
	}
	if s == 0 {
		c.vals[k&31] = v
	} else {
		i := (k >> s) & 31
		c.kids[i] = pset(c.kids[i], s-5, k, v)
	}
	return &c
}

// Each visits all entries in key order.
func (m PMap) Each(f func(k int, v Value)) {
	if m.root == nil {
		return
	}
	var walk func(n *pnode, s uint, base int)
	walk = func(n *pnode, s uint, base int) {
		for i := 0; i < 32; i++ {
			if s == 0 {
				if n.vals[i] != nil {
					f(base|i, n.vals[i])
				}
			} else if n.kids[i] != nil {
				walk(n.kids[i], s-5, base|i<<s)
			}
		}
	}
	walk(m.root, 5*(m.h-1), 0)
}
