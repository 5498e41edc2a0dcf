package main

import (
	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	idx    int
}

type LoopInfo struct {
	byHead map[*ssa.BasicBlock]*Loop
	inner  map[*ssa.BasicBlock]*Loop // innermost loop of a block
	join   map[*ssa.BasicBlock]*ssa.BasicBlock
}

func loopInfo(fn *ssa.Function) *LoopInfo {
	li := &LoopInfo{byHead: map[*ssa.BasicBlock]*Loop{}, inner: map[*ssa.BasicBlock]*Loop{}, join: map[*ssa.BasicBlock]*ssa.BasicBlock{}}
	n := 0
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				l := li.byHead[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}, idx: n}
					n++
					li.byHead[s] = l
				}
				var st []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		var best *Loop
		for _, l := range li.byHead {
			if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
				best = l
			}
		}
		li.inner[b] = best
	}
	for _, l := range li.byHead {
		for _, m := range li.byHead {
			if m != l && m.blocks[l.head] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	li.joins(fn)
	return li
}

// joins picks, for every branching block, the block where its two sides are merged again: the first one (in
// topological order) reachable from both without leaving the innermost loop.  Any choice is sound, the
// states that reach the block are collected there before execution goes on.
func (li *LoopInfo) joins(fn *ssa.Function) {
	order := map[*ssa.BasicBlock]int{}
	seen := map[*ssa.BasicBlock]bool{}
	n := len(fn.Blocks)
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] && !s.Dominates(b) {
				dfs(s)
			}
		}
		n--
		order[b] = n
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	reach := func(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		m := map[*ssa.BasicBlock]bool{}
		var rec func(b *ssa.BasicBlock)
		rec = func(b *ssa.BasicBlock) {
			if m[b] {
				return
			}
			m[b] = true
			for _, s := range b.Succs {
				if !s.Dominates(b) {
					rec(s)
				}
			}
		}
		rec(b)
		return m
	}
	for _, b := range fn.Blocks {
		if len(b.Succs) != 2 || b.Succs[0].Dominates(b) || b.Succs[1].Dominates(b) {
			continue
		}
		r1, r2 := reach(b.Succs[0]), reach(b.Succs[1])
		var best *ssa.BasicBlock
		for j := range r1 {
			if !r2[j] {
				continue
			}
			ok := li.inner[j] == li.inner[b] && li.byHead[j] == nil
			if l := li.byHead[j]; l != nil && l.parent == li.inner[b] && !l.blocks[b] {
				ok = true
			}
			if ok && (best == nil || order[j] < order[best]) {
				best = j
			}
		}
		if best != nil {
			li.join[b] = best
		}
	}
}
