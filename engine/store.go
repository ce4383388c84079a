package main

import "sort"

// Heap: a persistent map from regions to contents, kept as a stack of frozen
// layers shared between states plus one private layer on top.
type hlayer struct{ m map[RegKey]*Content }

type Heap struct {
	ls  []*hlayer
	top map[RegKey]*Content
}

func newHeap() *Heap { return &Heap{top: map[RegKey]*Content{}} }

func (h *Heap) Get(k RegKey) *Content {
	if c, ok := h.top[k]; ok {
		return c
	}
	for i := len(h.ls) - 1; i >= 0; i-- {
		if c, ok := h.ls[i].m[k]; ok {
			return c
		}
	}
	return nil
}

func (h *Heap) Set(k RegKey, c *Content) {
	if k.Obj != nil && !k.Obj.paths[k.Path] {
		if k.Obj.paths == nil {
			k.Obj.paths = map[string]bool{}
		}
		k.Obj.paths[k.Path] = true
	}
	h.top[k] = c
}

func (h *Heap) freeze() {
	if len(h.top) == 0 {
		return
	}
	ls := append(append(make([]*hlayer, 0, len(h.ls)+1), h.ls...), &hlayer{h.top})
	for n := len(ls); n >= 2 && len(ls[n-1].m)*2 >= len(ls[n-2].m); n = len(ls) {
		m := make(map[RegKey]*Content, len(ls[n-1].m)+len(ls[n-2].m))
		for k, v := range ls[n-2].m {
			m[k] = v
		}
		for k, v := range ls[n-1].m {
			m[k] = v
		}
		ls = append(ls[:n-2], &hlayer{m})
	}
	h.ls, h.top = ls, map[RegKey]*Content{}
}

func (h *Heap) Clone() *Heap {
	h.freeze()
	return &Heap{ls: h.ls, top: map[RegKey]*Content{}}
}

// Each visits every region once, in no particular order.
func (h *Heap) Each(f func(k RegKey, c *Content)) {
	seen := make(map[RegKey]bool, 64)
	for k, c := range h.top {
		seen[k] = true
		f(k, c)
	}
	for i := len(h.ls) - 1; i >= 0; i-- {
		for k, c := range h.ls[i].m {
			if i > 0 || len(seen) > 0 {
				if seen[k] {
					continue
				}
				if i > 0 {
					seen[k] = true
				}
			}
			f(k, c)
		}
	}
}

// Diff returns the regions whose content may differ between the two heaps.
func (h *Heap) Diff(o *Heap) []RegKey {
	i := 0
	for i < len(h.ls) && i < len(o.ls) && h.ls[i] == o.ls[i] {
		i++
	}
	keys := map[RegKey]bool{}
	for _, x := range []*Heap{h, o} {
		for _, l := range x.ls[i:] {
			for k := range l.m {
				keys[k] = true
			}
		}
		for k := range x.top {
			keys[k] = true
		}
	}
	var out []RegKey
	for k := range keys {
		if h.Get(k) != o.Get(k) {
			out = append(out, k)
		}
	}
	sortRegs(out)
	return out
}

func sortRegs(ks []RegKey) {
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].Obj.ID != ks[j].Obj.ID {
			return ks[i].Obj.ID < ks[j].Obj.ID
		}
		return ks[i].Path < ks[j].Path
	})
}
