// Package hdos3 has the harnesses for DOS 3.3 disks.
package hdos3

import (
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/zzverif/vrt"
)

func le(d []byte, i int) uint16 { return uint16(d[i]) | uint16(d[i+1])<<8 }

// Any 256 bytes as a VTOC.
func C05_vtocDecode() {
	d := vrt.Bytes("d", 256)
	keep := vrt.Clone(d)
	v := dos3.VTOC{}
	v.Unused1, v.Volume, v.NumSectors = 1, 2, 3 // decoding overwrites everything
	vrt.Assert(v.FromSector(d) == nil, "256 bytes decode")
	out, err := v.ToSector()
	vrt.Assert(err == nil && vrt.Eq(out, keep), "decoding and encoding a VTOC gives the same bytes")
	vrt.Assert(vrt.Eq(d, keep), "the input is not modified")
	vrt.Assert(vrt.All(v.Unused1 == keep[0], v.CatalogTrack == keep[1], v.CatalogSector == keep[2], v.DOSRelease == keep[3]), "catalog pointer and release")
	vrt.Assert(vrt.All(v.Unused2 == [2]byte{keep[4], keep[5]}, v.Volume == keep[6], vrt.Eq(v.Unused3[:], keep[7:0x27])), "volume")
	vrt.Assert(vrt.All(v.TrackSectorListMaxSize == keep[0x27], vrt.Eq(v.Unused4[:], keep[0x28:0x30])), "list size")
	vrt.Assert(vrt.All(v.LastTrack == keep[0x30], v.TrackDirection == int8(keep[0x31]), v.Unused5 == [2]byte{keep[0x32], keep[0x33]}), "allocation")
	vrt.Assert(vrt.All(v.NumTracks == keep[0x34], v.NumSectors == keep[0x35], v.BytesPerSector == le(keep, 0x36)), "geometry")
	for i := 0; i < 50; i++ {
		vrt.Assert(vrt.Eq(v.FreeSectors[i][:], keep[0x38+4*i:0x3c+4*i]), "free sector bitmap")
	}
	// the structure does not share memory with the input
	for i := range d {
		d[i] = d[i] ^ 0xff
	}
	out, err = v.ToSector()
	vrt.Assert(err == nil && vrt.Eq(out, keep), "the structure is a copy")
	vrt.ObserveBytes("out", out)
}

// Any VTOC structure.
func C05_vtocEncode() {
	v := dos3.VTOC{}
	v.Unused1, v.CatalogTrack, v.CatalogSector, v.DOSRelease = vrt.Byte("a"), vrt.Byte("a"), vrt.Byte("a"), vrt.Byte("a")
	copy(v.Unused2[:], vrt.Bytes("u2", 2))
	v.Volume = vrt.Byte("a")
	copy(v.Unused3[:], vrt.Bytes("u3", 32))
	v.TrackSectorListMaxSize = vrt.Byte("a")
	copy(v.Unused4[:], vrt.Bytes("u4", 8))
	v.LastTrack, v.TrackDirection = vrt.Byte("a"), int8(vrt.Byte("a"))
	copy(v.Unused5[:], vrt.Bytes("u5", 2))
	v.NumTracks, v.NumSectors, v.BytesPerSector = vrt.Byte("a"), vrt.Byte("a"), vrt.U16("b")
	for i := range v.FreeSectors {
		copy(v.FreeSectors[i][:], vrt.Bytes("f", 4))
	}
	out, err := v.ToSector()
	vrt.Assert(err == nil && len(out) == 256, "a VTOC encodes to 256 bytes")
	w := dos3.VTOC{}
	vrt.Assert(w.FromSector(out) == nil, "and decodes")
	vrt.Assert(w == v, "to the same VTOC")
}

// Any 256 bytes as a catalog sector.
func C05_catalogDecode() {
	d := vrt.Bytes("d", 256)
	keep := vrt.Clone(d)
	c := dos3.CatalogSector{}
	vrt.Assert(c.FromSector(d) == nil, "256 bytes decode")
	out, err := c.ToSector()
	vrt.Assert(err == nil && vrt.Eq(out, keep), "decoding and encoding a catalog sector gives the same bytes")
	vrt.Assert(vrt.All(c.Unused1 == keep[0], c.NextTrack == keep[1], c.NextSector == keep[2], vrt.Eq(c.Unused2[:], keep[3:11])), "next sector")
	for i := 0; i < 7; i++ {
		e := keep[0x0b+35*i : 0x0b+35*i+35]
		f := c.FileDescs[i]
		vrt.Assert(vrt.All(f.TrackSectorListTrack == e[0], f.TrackSectorListSector == e[1], byte(f.Filetype) == e[2], vrt.Eq(f.Filename[:], e[3:0x21]), f.SectorCount == le(e, 0x21)), "file entry")
		want := dos3.FileDescStatusNormal
		if e[0] == 0 {
			want = dos3.FileDescStatusUnused
		} else if e[0] == 0xff {
			want = dos3.FileDescStatusDeleted
		}
		vrt.Assert(f.Status() == want, "track 0 is an unused entry, $FF a deleted one")
	}
	vrt.ObserveBytes("out", out)
}

func C05_catalogEncode() {
	c := dos3.CatalogSector{}
	c.Unused1, c.NextTrack, c.NextSector = vrt.Byte("a"), vrt.Byte("a"), vrt.Byte("a")
	copy(c.Unused2[:], vrt.Bytes("u2", 8))
	for i := range c.FileDescs {
		f := &c.FileDescs[i]
		f.TrackSectorListTrack, f.TrackSectorListSector, f.Filetype = vrt.Byte("t"), vrt.Byte("s"), dos3.Filetype(vrt.Byte("y"))
		copy(f.Filename[:], vrt.Bytes("n", 30))
		f.SectorCount = vrt.U16("c")
	}
	out, err := c.ToSector()
	vrt.Assert(err == nil && len(out) == 256, "a catalog sector encodes to 256 bytes")
	w := dos3.CatalogSector{}
	vrt.Assert(w.FromSector(out) == nil, "and decodes")
	vrt.Assert(w == c, "to the same catalog sector")
	b := c.FileDescs[3].ToBytes()
	g := dos3.FileDesc{}
	g.FromBytes(b)
	vrt.Assert(len(b) == 35 && g == c.FileDescs[3], "a file entry encodes to 35 bytes and back")
}

// Any 256 bytes as a track/sector list.
func C05_listDecode() {
	d := vrt.Bytes("d", 256)
	keep := vrt.Clone(d)
	c := dos3.TrackSectorList{}
	vrt.Assert(c.FromSector(d) == nil, "256 bytes decode")
	out, err := c.ToSector()
	vrt.Assert(err == nil && vrt.Eq(out, keep), "decoding and encoding a track/sector list gives the same bytes")
	vrt.Assert(vrt.All(c.Unused1 == keep[0], c.NextTrack == keep[1], c.NextSector == keep[2], vrt.Eq(c.Unused2[:], keep[3:5]), c.SectorOffset == le(keep, 5), vrt.Eq(c.Unused3[:], keep[7:12])), "header of the list")
	for i := 0; i < 122; i++ {
		vrt.Assert(c.TrackSectors[i] == disk.TrackSector{Track: keep[12+2*i], Sector: keep[13+2*i]}, "track/sector pair")
	}
	vrt.ObserveBytes("out", out)
}

func C05_listEncode() {
	c := dos3.TrackSectorList{}
	c.Unused1, c.NextTrack, c.NextSector = vrt.Byte("a"), vrt.Byte("a"), vrt.Byte("a")
	copy(c.Unused2[:], vrt.Bytes("u2", 2))
	copy(c.Unused3[:], vrt.Bytes("u3", 5))
	c.SectorOffset = vrt.U16("o")
	for i := range c.TrackSectors {
		c.TrackSectors[i] = disk.TrackSector{Track: vrt.Byte("t"), Sector: vrt.Byte("s")}
	}
	out, err := c.ToSector()
	vrt.Assert(err == nil && len(out) == 256, "a track/sector list encodes to 256 bytes")
	w := dos3.TrackSectorList{}
	vrt.Assert(w.FromSector(out) == nil, "and decodes")
	vrt.Assert(w == c, "to the same list")
}

// Input of any other length is refused, not sliced.
func C05_length() {
	n := vrt.Int("n", 0, 1024)
	d := vrt.ImageLen("d", 1024, n)
	vrt.Assume(n != 256)
	v := dos3.VTOC{}
	vrt.Assert(v.FromSector(d) != nil, "a VTOC of another length is refused")
	c := dos3.CatalogSector{}
	vrt.Assert(c.FromSector(d) != nil, "a catalog sector of another length is refused")
	l := dos3.TrackSectorList{}
	vrt.Assert(l.FromSector(d) != nil, "a track/sector list of another length is refused")
}

// The free-sector bitmap: sectors F..8 in the first byte, 7..0 in the second.
func C05_isFree() {
	var m dos3.TrackFreeSectors
	copy(m[:], vrt.Bytes("m", 4))
	for s := 0; s < 16; s++ {
		want := m[1]&(1<<uint(s)) != 0
		if s >= 8 {
			want = m[0]&(1<<uint(s-8)) != 0
		}
		vrt.Assert(m.IsFree(byte(s)) == want, "a sector is free exactly when its bit is set")
	}
	x := vrt.Byte("x")
	vrt.Assume(x >= 16)
	vrt.Assert(!m.IsFree(x), "no sector beyond 15 is free")
	vrt.Assert(m.UnusedClear() == vrt.All(m[2] == 0, m[3] == 0), "the last two bytes are unused")
}

// valid is the specification of a usable VTOC.
func valid(d []byte) bool {
	ok := vrt.All(d[3] == 3, d[6] != 255, d[0x27] == 122, vrt.Any(d[0x31] == 1, d[0x31] == 255),
		d[0x34] == 35, vrt.Any(d[0x35] == 13, d[0x35] == 16), d[0x36] == 0, d[0x37] == 1)
	for i := 0; i < 50; i++ {
		ok = vrt.All(ok, d[0x38+4*i+2] == 0, d[0x38+4*i+3] == 0)
	}
	return ok
}

// A VTOC is valid exactly when every checked field has a DOS 3.3 value.
func C05_validate() {
	d := vrt.Bytes("d", 256)
	v := dos3.VTOC{}
	vrt.Assert(v.FromSector(d) == nil, "256 bytes decode")
	err := v.Validate()
	vrt.Assert((err == nil) == valid(d), "a VTOC is accepted exactly when it is a DOS 3.3 VTOC")
	if err == nil {
		vrt.Reach("valid")
	}
	w := dos3.DefaultVTOC()
	vrt.Assert(w.Validate() == nil, "the default VTOC is valid")
}
