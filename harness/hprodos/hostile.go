package hprodos

import (
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/zzverif/vrt"
)

// tryAll reports whether none of the ways to list the volume succeeds.
func tryAll(img []byte) (none bool) {
	keep := vrt.Clone(img)
	op, err := prodos.OperatorFactory{}.Operator(img, 0)
	vrt.Assert(err == nil, "the volume opens")
	_, e1 := op.Catalog("")
	m := prodos.OperatorFactory{}.SeemsToMatch(img, 0)
	vrt.Assert(vrt.Eq(img, keep), "listing changes nothing")
	vrt.Observe("ok", b2i(m))
	return e1 != nil && !m
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// quiet assumes that the entries of a directory block are unused, except k.
func quiet(b []byte, key bool, k int) {
	n, o := 13, 4
	if key {
		n, o = 12, 0x2b
	}
	for i := 0; i < n; i++ {
		if i != k {
			vrt.Assume(b[o+0x27*i] == 0)
		}
	}
}

// follow follows a directory chain from block b, whose contents are at blk, for
// at most max blocks, and reports whether it is sound.
func follow(img []byte, b uint16, k, max int) (sound bool, at []uint16) {
	key := true
	for i := 0; ; i++ {
		for _, x := range at {
			if x == b {
				vrt.Reach("the chain loops")
				return false, at
			}
		}
		if int(b)*512+512 > len(img) {
			vrt.Reach("the chain leaves the device")
			return false, at
		}
		vrt.Assume(i < max)
		at = append(at, b)
		blk := img[int(b)*512 : int(b)*512+512]
		quiet(blk, key, k)
		k, key = -1, false
		b = le(blk, 2)
		if b == 0 {
			vrt.Reach("the chain ends")
			return true, at
		}
	}
}

// Any volume directory chain of up to 3 blocks without subdirectories, on a
// device of any size up to 280 blocks.
func C12_chain() { chain(3) }

// Up to 6 blocks.
func C12T_chain() { chain(6) }

func chain(max int) {
	n := vrt.Int("n", 0, blocks*512)
	img := vrt.ImageLen("img", blocks*512, n)
	sound, _ := follow(img, 2, -1, max)
	none := tryAll(img)
	vrt.Assert(vrt.Imp(!sound, none), "a damaged directory chain is an error")
	vrt.Assert(vrt.Imp(sound, !none), "a sound volume is listed")
}

// One subdirectory whose key block, further blocks and parent pointer are anything.
func C12_sub() { oneSub(2) }

func C12T_sub() { oneSub(4) }

func oneSub(max int) {
	img := vrt.Image("img", blocks*512)
	vol, rest := follow(img, 2, 5, max)
	vrt.Assume(vol)
	e := img[2*512+0x2b+5*0x27:]
	vrt.Assume(e[0] == 0xd1)
	key := le(e, 0x11)
	sound, mine := follow(img, key, -1, max)
	if sound {
		p := le(img[int(key)*512:], 4+0x23)
		ok := false
		for _, b := range rest {
			ok = vrt.Any(ok, p == b)
		}
		self := false
		for _, b := range mine {
			self = vrt.Any(self, p == b)
		}
		if !ok {
			if self {
				vrt.Reach("a subdirectory is its own parent")
			} else {
				vrt.Reach("no such parent")
			}
			sound = false
		}
		if vrt.All(ok, self) {
			return // a block of two directories: only termination is claimed
		}
		vrt.Assume(vrt.Conc(int(img[int(key)*512+4]&15)) < 3)
	}
	none := tryAll(img)
	vrt.Assert(vrt.Imp(!sound, none), "a damaged subdirectory is an error")
}

// Up to 3 subdirectories with one-block directories at fixed places; which of
// them each entry leads to and their parent pointers are anything.
func C12_graph() { graph(2) }

func C12T_graph() { graph(3) }

func graph(n int) {
	img := make([]byte, blocks*512)
	v := volume(img)
	var keys []int
	var par []uint16
	for i := 0; i < n; i++ {
		keys = append(keys, 10+5*i)
	}
	tgt := func(name string) int { // block an entry leads to: none, one of them, or the volume
		return append([]int{0, 2}, keys...)[vrt.Pick(name, n+2)]
	}
	first := tgt("first")
	second := tgt("second")
	if first != 0 {
		v.put(3, 0xd, "A", 0x0f, first, 1, 512)
	}
	if second != 0 {
		v.put(7, 0xd, "B", 0x0f, second, 1, 512)
	}
	next := map[int]int{}
	for i, k := range keys {
		d := sub(img, "S"+string(rune('0'+i)), 0, k)
		p := vrt.U16("parent")
		par = append(par, p)
		img[k*512+4+0x23], img[k*512+4+0x24] = byte(p), byte(p>>8)
		x := tgt("child")
		next[k] = x
		if x != 0 {
			d.put(4, 0xd, "C", 0x0f, x, 1, 512)
		}
	}
	// walk the entries as a reader must
	sound := true
	reached := map[int]bool{}
	queue := []int{first, second}
	for i := 0; i < len(queue) && sound; i++ {
		b := queue[i]
		if b == 0 {
			continue
		}
		if b == 2 || reached[b] {
			// the volume directory seen as a subdirectory leads to itself or others
			// again
			sound = false
			vrt.Reach("a directory is reached twice")
			break
		}
		reached[b] = true
		queue = append(queue, next[b])
	}
	if sound {
		// every reached subdirectory's parents lead to the volume directory
		bad := false
		for i, k := range keys {
			if !reached[k] {
				continue
			}
			p := par[i]
			home := p == 2
			for step := 0; step < n; step++ {
				q := p
				for j, kk := range keys {
					if reached[kk] {
						q = uint16(vrt.If(p == uint16(kk), int(par[j]), int(q)))
					}
				}
				p = q
				home = vrt.Any(home, p == 2)
			}
			bad = vrt.Any(bad, !home)
		}
		if bad {
			vrt.Reach("parents do not lead to the volume")
			sound = false
		}
	}
	none := tryAll(img)
	vrt.Assert(vrt.Imp(!sound, none), "a damaged directory tree is an error")
	vrt.Assert(vrt.Imp(sound, !none), "a sound directory tree is listed")
}

// Long directory chains, of the volume or of a subdirectory, whose last block
// leads back to any of the others, or off the device, or nowhere.
func C12_back() {
	img := make([]byte, blocks*512)
	n := []int{5, 12, 100}[vrt.Pick("blocks", 3)]
	at := []int{2}
	inSub := vrt.Pick("sub", 2) == 1
	if inSub {
		at[0] = 20
	}
	for i := 1; i < n; i++ {
		at = append(at, 30+(i*37)%200)
	}
	if inSub {
		v := volume(img, 3)
		sub(img, "SUB", v.put(14, 0xd, "SUB", 0x0f, 20, 1, 512), at...)
	} else {
		volume(img, at[1:]...)
	}
	k := vrt.Pick("back", 8)
	b := uint16(0)
	switch k {
	case 6:
		b = vrt.U16("b")
		vrt.Assume(b >= blocks)
	case 7:
	default:
		b = uint16(at[[]int{0, 1, n / 3, n / 2, n - 2, n - 1}[k]])
	}
	l := img[at[n-1]*512:]
	l[2], l[3] = byte(b), byte(b>>8)
	none := tryAll(img)
	vrt.Assert(none == (k != 7), "a directory chain is listed if and only if it is sound")
	vrt.Reach("listed")
}

// Many subdirectories, one after or inside the other; one of the entries leads
// to the directory of another one, or to the volume's.
func C12_many() {
	img := make([]byte, blocks*512)
	n := []int{3, 14, 33}[vrt.Pick("n", 3)]
	deep := vrt.Pick("deep", 2) == 1
	i := []int{0, n / 2, n - 1}[vrt.Pick("i", 3)]
	j := []int{0, 1, n / 2, n - 1, -18, 300}[vrt.Pick("j", 6)]
	v := volume(img, 3, 4, 5)
	cur := v
	for k := 0; k < n; k++ {
		key := 20 + k
		if k == i {
			key = 20 + j
		}
		e := k
		if deep {
			e = k % 12
		}
		d := sub(img, "S", cur.put(e, 0xd, "S", 0x0f, key, 1, 512), 20+k)
		if deep {
			cur = d
		}
	}
	if deep && j > i {
		return // the others are not reached at all
	}
	none := tryAll(img)
	vrt.Assert(none == (i != j), "a directory reached twice is an error")
	vrt.Reach("listed")
}

// Hundreds of subdirectories in one directory; one of the entries may lead to
// the directory of another one, or to the volume's.
func C12_wide() {
	img := make([]byte, 1100*512)
	var at []int
	for i := 0; i < 51; i++ {
		at = append(at, 10+i)
	}
	v := volume(img, at...)
	bad := vrt.Pick("bad", 4)
	n := v.room()
	for k := 0; k < n; k++ {
		key := 100 + k
		switch {
		case bad == 1 && k == n-1:
			key = 100
		case bad == 2 && k == n-2:
			key = 2
		case bad == 3 && k == n-3:
			key = 100 + n - 2
		}
		sub(img, "S", v.put(k, 0xd, "S", 0x0f, key, 1, 512), 100+k)
	}
	none := tryAll(img)
	vrt.Assert(none == (bad != 0), "a directory reached twice is an error")
	vrt.Reach("listed")
}
