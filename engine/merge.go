package main

// Region merging: at a symbolic branch the blocks up to the join are executed
// under guards and their effects combined with ite, instead of forking.

type edgeIn struct {
	g   *Term
	pos int
}

type group struct {
	b     *Blk
	edges []edgeIn
	g     *Term
}

type retIn struct {
	g *Term
	v V
}

func (it *Interp) symIf(fr *Frame, blk *Blk, c *Term) (next *Blk, pos int, skipPhi bool, ret V, isRet bool) {
	for phase := 0; phase < 2; phase++ {
		key := specKey{blk, phase}
		if it.specBad[key] >= 4 && it.specGood[key] == 0 {
			continue
		}
		groups, rets, ok := it.tryRegion(fr, blk, c, phase == 0)
		if !ok {
			it.specBad[key]++
			continue
		}
		it.specGood[key]++
		ng := len(groups)
		if len(rets) > 0 {
			ng++
		}
		sel := 0
		if ng > 1 {
			if it.spec > 0 {
				it.fail("multi-exit region")
			}
			sel = ng - 1
			for k := 0; k < ng-1; k++ {
				if it.branch(groups[k].g) {
					sel = k
					break
				}
			}
		}
		if sel == len(groups) { // the return group
			v, ok := it.mergeRets(fr, rets)
			if !ok {
				// cannot merge the values: fork on each
				for k := 0; k < len(rets)-1; k++ {
					if it.branch(rets[k].g) {
						return nil, 0, false, rets[k].v, true
					}
				}
				return nil, 0, false, rets[len(rets)-1].v, true
			}
			return nil, 0, false, v, true
		}
		g := &groups[sel]
		if len(g.edges) == 1 {
			return g.b, g.edges[0].pos, false, V{}, false
		}
		if it.mergePhis(fr, g) {
			return g.b, 0, true, V{}, false
		}
		if it.spec > 0 {
			it.fail("phi merge")
		}
		for k := 0; k < len(g.edges)-1; k++ {
			if it.branch(g.edges[k].g) {
				return g.b, g.edges[k].pos, false, V{}, false
			}
		}
		return g.b, g.edges[len(g.edges)-1].pos, false, V{}, false
	}
	if it.spec > 0 {
		it.fail("fork")
	}
	k := 1
	if it.branch(c) {
		k = 0
	}
	return blk.succ[k], blk.succPos[k], false, V{}, false
}

type specKey struct {
	b     *Blk
	phase int
}

func (it *Interp) mergeRets(fr *Frame, rets []retIn) (V, bool) {
	acc := rets[len(rets)-1].v
	res := fr.fn.f.Signature.Results()
	var l *Layout
	if res.Len() == 0 {
		return V{}, true
	}
	if res.Len() == 1 {
		l = lay(res.At(0).Type())
	} else {
		l = lay(res)
	}
	for k := len(rets) - 2; k >= 0; k-- {
		v, ok := it.mergeV(l, rets[k].g, rets[k].v, acc)
		if !ok {
			return V{}, false
		}
		acc = v
	}
	return acc, true
}

// mergePhis assigns the phis of g.b from all incoming edges at once.
func (it *Interp) mergePhis(fr *Frame, g *group) bool {
	b := g.b
	tmp := make([]V, len(b.phis))
	for i := range b.phis {
		p := &b.phis[i]
		acc := it.val(fr, &p.edges[g.edges[len(g.edges)-1].pos])
		for k := len(g.edges) - 2; k >= 0; k-- {
			v, ok := it.mergeV(p.l, g.edges[k].g, it.val(fr, &p.edges[g.edges[k].pos]), acc)
			if !ok {
				return false
			}
			acc = v
		}
		tmp[i] = acc
	}
	for i := range b.phis {
		fr.regs[b.phis[i].dst] = tmp[i]
	}
	return true
}

const regionBlocks = 40

// tryRegion expands the region after the branch. With full set, stores and
// calls are executed under guards and the region must have a single exit;
// otherwise only pure blocks are expanded and up to two exits are accepted.
func (it *Interp) tryRegion(fr *Frame, blk *Blk, c *Term, full bool) (groups []group, rets []retIn, ok bool) {
	saveUndo, saveGuard := it.undo, it.guard
	saveAp, saveAr, saveDepth, saveCur := it.ap, it.arena, it.depth, it.cur
	saveSteps, saveSD := it.specSteps, it.specDepth
	u := &undoLog{}
	it.undo = u
	if it.spec == 0 {
		it.specSteps = 4000
		it.specDepth = it.depth
	}
	it.spec++
	specSt := it.specSteps
	defer func() {
		it.spec--
		used := specSt - it.specSteps
		if it.spec > 0 {
			it.specSteps = saveSteps - used
			it.specDepth = saveSD
		} else {
			it.specSteps, it.specDepth = saveSteps, saveSD
		}
		it.guard = saveGuard
		it.undo = saveUndo
		r := recover()
		if r != nil {
			if _, isSpec := r.(specFail); !isSpec {
				panic(r)
			}
			it.ap, it.arena, it.depth, it.cur = saveAp, saveAr, saveDepth, saveCur
			ok = false
		}
		if !ok {
			for i := len(u.log) - 1; i >= 0; i-- {
				e := u.log[i]
				if e.i < 0 {
					e.a.arr = e.old.t
				} else {
					it.rawSet(e.a, e.i, e.old)
				}
			}
			groups, rets = nil, nil
		} else if saveUndo != nil {
			saveUndo.log = append(saveUndo.log, u.log...)
		}
	}()

	var pend []group
	var front []group
	add := func(b *Blk, g *Term, pos int) {
		if g.isFalse() {
			return
		}
		for _, l := range []*[]group{&pend, &front} {
			for i := range *l {
				if (*l)[i].b == b {
					(*l)[i].edges = append((*l)[i].edges, edgeIn{g, pos})
					return
				}
			}
		}
		pend = append(pend, group{b: b, edges: []edgeIn{{g, pos}}})
	}
	add(blk.succ[0], c, blk.succPos[0])
	add(blk.succ[1], it.tt.Not(c), blk.succPos[1])
	n := 0
	for len(pend) > 0 {
		if len(pend) == 1 && len(front) == 0 && len(rets) == 0 {
			front = append(front, pend[0])
			pend = nil
			break
		}
		mi := 0
		for i := range pend {
			if pend[i].b.rpo < pend[mi].b.rpo {
				mi = i
			}
		}
		g := pend[mi]
		pend = append(pend[:mi], pend[mi+1:]...)
		b := g.b
		isLoopHead := b.rpo <= blk.rpo
		if isLoopHead || !b.spec || !full && b.hasSt || n >= regionBlocks {
			front = append(front, g)
			ng := len(front)
			if len(rets) > 0 {
				ng++
			}
			if full && ng > 1 || ng > 2 {
				return nil, nil, false
			}
			continue
		}
		n++
		// guard of the block
		bg := g.edges[0].g
		for _, e := range g.edges[1:] {
			bg = it.tt.Or(bg, e.g)
		}
		if len(g.edges) == 1 {
			it.guardPhis(fr, b, g.edges[0].pos)
		} else if !it.mergePhis(fr, &g) {
			it.fail("phi merge")
		}
		if saveGuard != nil {
			it.guard = it.tt.And(saveGuard, bg)
		} else {
			it.guard = bg
		}
		if it.guard.isTrue() {
			it.guard = nil
		}
		for i := range b.ins {
			I := &b.ins[i]
			it.steps++
			it.specSteps--
			if it.specSteps < 0 {
				it.fail("spec steps")
			}
			switch I.op {
			case opJump:
				if b.succ[0].rpo <= b.rpo && b.succ[0].rpo > blk.rpo {
					it.fail("inner loop")
				}
				add(b.succ[0], bg, b.succPos[0])
			case opIf:
				cv := it.val(fr, &I.a)
				for k := 0; k < 2; k++ {
					if b.succ[k].rpo <= b.rpo && b.succ[k].rpo > blk.rpo {
						it.fail("inner loop")
					}
				}
				if cv.t == nil {
					k := 1
					if cv.n != 0 {
						k = 0
					}
					add(b.succ[k], bg, b.succPos[k])
				} else {
					add(b.succ[0], it.tt.And(bg, cv.t), b.succPos[0])
					add(b.succ[1], it.tt.And(bg, it.tt.Not(cv.t)), b.succPos[1])
				}
			case opReturn:
				if fr.fn.hasDefer {
					it.fail("return with defers")
				}
				rets = append(rets, retIn{bg, it.retVal(fr, I)})
				if full && len(front) > 0 {
					return nil, nil, false
				}
			default:
				it.step(fr, I)
			}
		}
	}
	ng := len(front)
	if len(rets) > 0 {
		ng++
	}
	if full && ng > 1 || ng > 2 {
		return nil, nil, false
	}
	if full && len(rets) > 0 {
		// merged return values must combine, otherwise forking is better
		if _, ok := it.mergeRets(fr, rets); !ok {
			return nil, nil, false
		}
	}
	for i := range front {
		bg := front[i].edges[0].g
		for _, e := range front[i].edges[1:] {
			bg = it.tt.Or(bg, e.g)
		}
		front[i].g = bg
	}
	if full && len(front) == 1 {
		// the phis must combine
		g := &front[0]
		if len(g.edges) > 1 {
			saved := make([]V, len(g.b.phis))
			for i := range g.b.phis {
				saved[i] = fr.regs[g.b.phis[i].dst]
			}
			good := it.mergePhis(fr, g)
			for i := range g.b.phis {
				fr.regs[g.b.phis[i].dst] = saved[i]
			}
			if !good {
				return nil, nil, false
			}
		}
	}
	return front, rets, true
}

func (it *Interp) guardPhis(fr *Frame, b *Blk, pos int) {
	if len(b.phis) > 0 {
		it.phis(fr, b, pos)
	}
}
