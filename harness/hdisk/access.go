package hdisk

import (
	"fmt"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/zzverif/vrt"
)

// addr is the specified place of a sector.
func addr(t, s byte) int { return int(t)*4096 + int(s)*256 }

// Reading any sector of an image of any length.
func C04_read() {
	t, s := vrt.Byte("track"), vrt.Byte("sector")
	vrt.Assume(s < 16)
	n := vrt.Int("n", 0, 300*4096)
	img := vrt.ImageLen("img", 300*4096, n)
	keep := vrt.Clone(img)
	got, err := disk.ReadSector(img, t, s)
	a := addr(t, s)
	vrt.Assert((err == nil) == (a+256 <= n), "a sector can be read exactly when it lies wholly inside the image")
	if err != nil {
		vrt.Reach("refused")
		return
	}
	vrt.Reach("read")
	vrt.Assert(len(got) == 256, "a sector has 256 bytes")
	vrt.Assert(vrt.Eq(got, keep[a:a+256]), "the bytes of the sector are returned")
	q := vrt.Int("q", 0, 255)
	got[q] = got[q] ^ 0x5a
	p := vrt.Int("p", 0, 300*4096-1)
	vrt.Assume(p < n)
	vrt.Assert(img[p] == keep[p], "what is returned is a copy")
}

// Writing any sector of an image of any length, with data of any length.
func C04_write() {
	t, s := vrt.Byte("track"), vrt.Byte("sector")
	vrt.Assume(s < 16)
	n := vrt.Int("n", 0, 300*4096)
	img := vrt.ImageLen("img", 300*4096, n)
	keep := vrt.Clone(img)
	l := []int{0, 1, 128, 255, 256, 257, 512}[vrt.Pick("l", 7)]
	data := vrt.Bytes("data", l)
	dkeep := vrt.Clone(data)
	err := disk.WriteSector(img, t, s, data)
	a := addr(t, s)
	vrt.Assert((err == nil) == vrt.All(a+256 <= n, l == 256), "a sector is written exactly when it is 256 bytes and lies wholly inside the image")
	vrt.Assert(vrt.Eq(data, dkeep), "the data is not modified")
	p := vrt.Int("p", 0, 300*4096-1)
	vrt.Assume(p < n)
	if err != nil {
		vrt.Assert(img[p] == keep[p], "a refused write changes nothing")
		vrt.Reach("refused")
		return
	}
	vrt.Reach("written")
	vrt.Assert(vrt.Eq(img[a:a+256], dkeep), "the sector holds the data")
	vrt.Assume(p < a || p >= a+256)
	vrt.Assert(img[p] == keep[p], "no other byte changes")
}

type sink struct {
	data          []byte
	track, sector byte
	set           int
	fail          bool
}

func (k *sink) FromSector(d []byte) error {
	k.data = append([]byte{}, d...)
	if k.fail {
		return fmt.Errorf("no")
	}
	return nil
}
func (k *sink) SetTrack(t byte)  { k.track = t; k.set++ }
func (k *sink) SetSector(s byte) { k.sector = s; k.set++ }
func (k *sink) GetTrack() byte   { return k.track }
func (k *sink) GetSector() byte  { return k.sector }
func (k *sink) ToSector() ([]byte, error) {
	if k.fail {
		return k.data, fmt.Errorf("no")
	}
	return k.data, nil
}

// Structures are read from and written to their own sector.
func C04_marshalSector() {
	t, s := vrt.Byte("track"), vrt.Byte("sector")
	vrt.Assume(s < 16)
	n := []int{0, 255, 256, 4096, size, size + 100}[vrt.Pick("n", 6)]
	img := vrt.Image("img", n)
	keep := vrt.Clone(img)
	k := &sink{fail: vrt.Bool("fail")}
	a := addr(t, s)
	err := disk.UnmarshalLogicalSector(img, k, t, s)
	vrt.Assert((err == nil) == vrt.All(a+256 <= n, !k.fail), "a structure is read exactly when its sector is inside the image and it decodes")
	if err == nil {
		vrt.Assert(k.set == 2 && k.track == t && k.sector == s, "its position is recorded")
		vrt.Assert(vrt.Eq(k.data, keep[a:a+256]), "it is given the bytes of its sector")
	}
	w := &sink{fail: k.fail, track: t, sector: s, data: vrt.Bytes("new", []int{256, 255, 257}[vrt.Pick("l", 3)])}
	err = disk.MarshalLogicalSector(img, w)
	vrt.Assert((err == nil) == vrt.All(a+256 <= n, !w.fail, len(w.data) == 256), "a structure is written exactly when its sector is inside the image")
	if n == 0 {
		return
	}
	p := vrt.Int("p", 0, n-1)
	if err != nil {
		vrt.Assert(img[p] == keep[p], "a refused write changes nothing")
		return
	}
	vrt.Reach("written")
	vrt.Assert(vrt.Eq(img[a:a+256], w.data), "the sector holds the structure")
	vrt.Assume(p < a || p >= a+256)
	vrt.Assert(img[p] == keep[p], "no other byte changes")
}

type bsink struct {
	data  disk.Block
	index uint16
	set   int
	fail  bool
}

func (k *bsink) FromBlock(b disk.Block) error {
	k.data = b
	if k.fail {
		return fmt.Errorf("no")
	}
	return nil
}
func (k *bsink) SetBlock(i uint16) { k.index = i; k.set++ }
func (k *bsink) GetBlock() uint16  { return k.index }
func (k *bsink) ToBlock() (disk.Block, error) {
	if k.fail {
		return k.data, fmt.Errorf("no")
	}
	return k.data, nil
}

// The same for blocks, on a device of any length.
func C04_readBlock() {
	b := vrt.U16("block")
	n := vrt.Int("n", 0, 65540*512)
	img := vrt.ImageLen("img", 65540*512, n)
	keep := vrt.Clone(img)
	k := &bsink{fail: vrt.Bool("fail")}
	err := disk.UnmarshalBlock(img, k, b)
	vrt.Assert((err == nil) == vrt.All(int(b)*512+512 <= n, !k.fail), "a block is read exactly when it lies wholly inside the device")
	if err != nil {
		vrt.Reach("refused")
		return
	}
	vrt.Reach("read")
	a := int(b) * 512
	vrt.Assert(k.set == 1 && k.index == b, "its index is recorded")
	vrt.Assert(vrt.Eq(k.data[:], keep[a:a+512]), "it is given the bytes of its block")
	for i := range k.data {
		k.data[i] = k.data[i] ^ 0x5a
	}
	vrt.Assert(vrt.Eq(img, keep), "they are a copy")
}

func C04_writeBlock() {
	n := vrt.Int("n", 0, 65540*512)
	img := vrt.ImageLen("img", 65540*512, n)
	keep := vrt.Clone(img)
	w := &bsink{fail: vrt.Bool("fail"), index: vrt.U16("block")}
	copy(w.data[:], vrt.Bytes("data", 512))
	err := disk.MarshalBlock(img, w)
	a := int(w.index) * 512
	vrt.Assert((err == nil) == vrt.All(a+512 <= n, !w.fail), "a block is written exactly when it lies wholly inside the device")
	p := vrt.Int("p", 0, 65540*512-1)
	vrt.Assume(p < n)
	if err != nil {
		vrt.Assert(img[p] == keep[p], "a refused write changes nothing")
		vrt.Reach("refused")
		return
	}
	vrt.Reach("written")
	vrt.Assert(vrt.Eq(img[a:a+512], w.data[:]), "the block holds the data")
	vrt.Assume(p < a || p >= a+512)
	vrt.Assert(img[p] == keep[p], "no other byte changes")
}
