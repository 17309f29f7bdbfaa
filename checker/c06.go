package main

import (
	"fmt"
	"go/types"

	"verif/checker/ai"
)

const btrfsPkg = "pkg/btrfs"

type field struct {
	off  int64
	kind string
}

// The btrfs on-disk format: type -> accessor -> offset and kind.
var diskFormat = map[string]map[string]field{
	"Header": {"CSum": {0, "b32"}, "FSID": {32, "b16"}, "ByteNr": {48, "u64"}, "Flags": {56, "u64"}, "ChunkTreeUUID": {64, "b16"},
		"Generation": {80, "u64"}, "Owner": {88, "u64"}, "NrItems": {96, "u32"}, "Level": {100, "u8"}, "IsLeaf": {100, "zero8"}},
	"Item":      {"Key": {0, "key"}, "Offset": {17, "u32"}, "Size": {21, "u32"}},
	"DevExtent": {"ChunkTree": {0, "u64"}, "ChunkObjectID": {8, "u64"}, "ChunkOffset": {16, "u64"}, "Length": {24, "u64"}, "ChunkTreeUUID": {32, "b16"}},
	"DevItem": {"DevID": {0, "u64"}, "TotalBytes": {8, "u64"}, "BytesUsed": {16, "u64"}, "IOAlign": {24, "u32"}, "IOWidth": {28, "u32"},
		"SectorSize": {32, "u32"}, "Type": {36, "u64"}, "Generation": {44, "u64"}, "StartOffset": {52, "u64"}, "DevGroup": {60, "u32"},
		"SeekSpeed": {64, "u8"}, "Bandwidth": {65, "u8"}, "UUID": {66, "b16"}, "FSID": {82, "b16"}},
	"Stripe": {"DevID": {0, "u64"}, "Offset": {8, "u64"}, "DevUUID": {16, "b16"}},
	"Chunk": {"Length": {0, "u64"}, "Owner": {8, "u64"}, "StripeLen": {16, "u64"}, "Type": {24, "u64"}, "IOAlign": {32, "u32"},
		"IOWidth": {36, "u32"}, "SectorSize": {40, "u32"}, "NumStripes": {44, "u16"}, "SubStripes": {46, "u16"}, "Stripe": {48, "elem32"}},
	"InodeItem": {"Generation": {0, "u64"}, "TransID": {8, "u64"}, "Size": {16, "u64"}, "Nbytes": {24, "u64"}, "BlockGroup": {32, "u64"},
		"Nlink": {40, "u32"}, "UID": {44, "u32"}, "GID": {48, "u32"}, "Mode": {52, "u32"}, "Rdev": {56, "u64"}, "Flags": {64, "u64"},
		"Sequence": {72, "u64"}, "Reserved": {80, "a4"}, "Atime": {112, "time"}, "Ctime": {124, "time"}, "Mtime": {136, "time"},
		"Rtime": {148, "time"}, "Otime": {148, "time"}},
	"InodeRefItem": {"Index": {0, "u64"}, "NameLen": {8, "u16"}, "Name": {10, "str16@8"}},
	"DirItem": {"Location": {0, "key"}, "TransID": {17, "u64"}, "DataLen": {25, "u16"}, "NameLen": {27, "u16"}, "Type": {29, "u8"},
		"Name": {30, "str16@27"}, "Data": {30, "dirdata"}, "IsDir": {29, "is2"}, "IsSubvolume": {8, "is132"}},
	"BlockGroupItem": {"Used": {0, "u64"}, "ChunkObjectID": {8, "u64"}, "Flags": {16, "u64"}},
	"FileExtentItem": {"Generation": {0, "u64"}, "RAMBytes": {8, "u64"}, "Compression": {16, "u8"}, "Encryption": {17, "u8"},
		"OtherEncoding": {18, "u16"}, "Type": {20, "u8"}, "DiskByteNr": {21, "u64"}, "DiskNumBytes": {29, "u64"}, "Offset": {37, "u64"},
		"NumBytes": {45, "u64"}, "IsInline": {20, "zero8"}, "Data": {21, "inline"}},
	"CSumItem": {"CSum": {0, "b32"}},
	"RootItem": {"Inode": {0, "sub160"}, "Generation": {160, "u64"}, "RootDirID": {168, "u64"}, "ByteNr": {176, "u64"}, "ByteLimit": {184, "u64"},
		"BytesUsed": {192, "u64"}, "LastSnapshot": {200, "u64"}, "Flags": {208, "u64"}, "Refs": {216, "u32"}, "DropProgress": {220, "key"},
		"DropLevel": {237, "u8"}, "Level": {238, "u8"}, "GenerationV2": {239, "u64"}, "UUID": {247, "b16"}, "ParentUUID": {263, "b16"},
		"ReceivedUUID": {279, "b16"}, "CTransID": {295, "u64"}, "OTransID": {303, "u64"}, "STransID": {311, "u64"}, "RTransID": {319, "u64"},
		"Ctime": {327, "time"}, "Otime": {339, "time"}, "Stime": {351, "time"}, "Rtime": {363, "time"}, "Reserved": {375, "a8"},
		"IsGenerationV2": {160, "geneq"}},
	"RootRef":    {"DirID": {0, "u64"}, "Sequence": {8, "u64"}, "NameLen": {16, "u16"}, "Name": {18, "str16@16"}},
	"ExtentItem": {"Refs": {0, "u64"}, "Generation": {8, "u64"}, "Flags": {16, "u64"}, "IsCompatV0": {24, "shorter"}},
}

var diskSize = map[string]int64{"Header": 101, "Item": 25, "DevExtent": 48, "DevItem": 98, "Stripe": 32, "Chunk": 80, "InodeItem": 160,
	"InodeRefItem": 10, "DirItem": 30, "BlockGroupItem": 24, "FileExtentItem": 53, "CSumItem": 32, "RootItem": 439, "RootRef": 18, "ExtentItem": 24}

var diskConsts = map[string]uint64{"HeaderLen": 101, "ItemLen": 25, "KeyLen": 17, "DevExtentLen": 48, "DevItemLen": 98, "ChunkLen": 80,
	"InodeItemLen": 160, "DirItemLen": 30, "FileExtentItemEnd": 53, "FileExtentItemInlineLen": 21, "RootItemLen": 439,
	"CSumSize": 32, "LabelSize": 256, "SystemChunkArraySize": 2048}

// le reads n bytes of the array of a slice value, relative to its start.
func le(st *ai.State, s *ai.Term, off *ai.Term, n int) *ai.Term {
	return st.ReadInt(s.A[0], ai.Add(s.A[1], off), n, "LE")
}
func leK(st *ai.State, s *ai.Term, off int64, n int) *ai.Term { return le(st, s, ai.I64(off), n) }

func bytesAt(st *ai.State, s *ai.Term, off int64, n int) *ai.Term {
	f := make([]*ai.Term, n)
	for i := range f {
		f[i] = leK(st, s, off+int64(i), 1)
	}
	return ai.Struct(f...)
}

func keyAt(st *ai.State, s, off *ai.Term) *ai.Term {
	return ai.Struct(le(st, s, off, 8), le(st, s, ai.AddK(off, 8), 1), le(st, s, ai.AddK(off, 9), 8))
}

func stripZone(t *ai.Term) *ai.Term {
	for t != nil && t.Op == ai.OApp && (t.S == "(time.Time).UTC" || t.S == "(time.Time).Local") && len(t.A) == 1 {
		t = t.A[0]
	}
	return t
}

// strIs reports whether v is the string of the n bytes at off of slice s.
func strIs(st *ai.State, v, s, off, n *ai.Term) bool {
	if v == ai.Str("") {
		return holds(st, ai.Eq(n, ai.I64(0)))
	}
	if v.Op != ai.OApp || v.S != "strb" || !holds(st, ai.Eq(v.A[2], n)) {
		return false
	}
	c, o := st.Content(s.A[0], ai.Add(s.A[1], off), n)
	return v.A[0] == c && same(st, v.A[1], o)
}

func init() {
	checks["C06"] = checkC06
}

func checkC06(c *Check) {
	c.Rules = map[string]string{
		"field":  "on every path the accessor returns exactly the field the on-disk format places at its offset",
		"length": "structure length constants have the values of the format",
	}
	for _, n := range sortedKeys(diskConsts) {
		v, _, ok := c.P.constOf(btrfsPkg, n)
		if !ok {
			c.Counts["absent_constants"]++
			continue
		}
		c.Ob(v == diskConsts[n], "length", n, "", "%s is %d, the format has %d", n, v, diskConsts[n])
	}
	for _, tn := range sortedKeys(diskFormat) {
		ms := c.P.methodsOf(btrfsPkg, tn)
		if len(ms) == 0 {
			c.Counts["absent_types"]++
			continue
		}
		for _, mn := range sortedKeys(ms) {
			f, ok := diskFormat[tn][mn]
			if !ok {
				if !(tn == "Item" && mn == "Data") {
					c.Counts["other_methods"]++
				}
				continue
			}
			fn := ms[mn]
			where := fnShort(fn)
			s := diskSize[tn]
			x, args, outs := c.run(fn, func(x *ai.Exec, st *ai.State, a []*ai.Term) {
				if a[0].Op != ai.OSlice {
					return
				}
				l := a[0].A[2]
				switch f.kind {
				case "inline":
					// inline data up to the largest the format allows
					x.Assume(st, ai.Le(false, leK(st, a[0], 8, 8), ai.I64(4096)))
					x.Assume(st, ai.Le(true, ai.Add(ai.I64(21), leK(st, a[0], 8, 8)), l))
				case "elem32":
					x.Assume(st, ai.Le(true, ai.Add(ai.I64(80), ai.Mul(ai.I64(32), ai.ZExt(64, a[1]))), l))
				case "shorter":
				default:
					x.Assume(st, ai.Le(true, ai.I64(s), l))
				}
				var o int64
				if n, _ := fmt.Sscanf(f.kind, "str16@%d", &o); n == 1 {
					nl := leK(st, a[0], o, 2)
					x.Assume(st, ai.Le(false, nl, ai.Int(16, 255)))
					x.Assume(st, ai.Le(true, ai.Add(ai.I64(f.off), ai.ZExt(64, nl)), l))
				}
				if f.kind == "dirdata" {
					nl, dl := leK(st, a[0], 27, 2), leK(st, a[0], 25, 2)
					x.Assume(st, ai.Le(true, ai.Add(ai.I64(30), ai.Add(ai.ZExt(64, nl), ai.ZExt(64, dl))), l))
				}
			}, nil)
			if args[0].Op != ai.OSlice {
				c.Fail(where, "receiver is not a byte slice")
				continue
			}
			n := 0
			for _, o := range outs {
				if o.Kind != "return" {
					c.Ob(false, "field", where, c.pos(fn.Pos()), "does not return for a complete structure")
					continue
				}
				n++
				ok := fieldIs(x, o.St, args, o.Ret, f)
				c.Ob(ok, "field", where, c.pos(fn.Pos()), "returns %v, not the %s at offset %d", o.Ret, f.kind, f.off)
			}
			if n == 0 {
				c.Ob(false, "field", where, c.pos(fn.Pos()), "no returning path")
			}
		}
	}
	c.leafAccessors()
	c.parseBuffer()
}

func fieldIs(x *ai.Exec, st *ai.State, args []*ai.Term, r *ai.Term, f field) bool {
	s := args[0]
	eqv := func(w *ai.Term) bool { return r.Op == w.Op && same(st, r, w) || holds(st, ai.Eq(r, w)) }
	var o int64
	if n, _ := fmt.Sscanf(f.kind, "str16@%d", &o); n == 1 {
		return strIs(st, r, s, ai.I64(f.off), ai.ZExt(64, leK(st, s, o, 2)))
	}
	switch f.kind {
	case "u8":
		return eqv(leK(st, s, f.off, 1))
	case "u16":
		return eqv(leK(st, s, f.off, 2))
	case "u32":
		return eqv(leK(st, s, f.off, 4))
	case "u64":
		return eqv(leK(st, s, f.off, 8))
	case "b16":
		return r.Op == ai.OStruct && same(st, r, bytesAt(st, s, f.off, 16))
	case "b32":
		return r.Op == ai.OStruct && same(st, r, bytesAt(st, s, f.off, 32))
	case "key":
		return r.Op == ai.OStruct && same(st, r, keyAt(st, s, ai.I64(f.off)))
	case "a4", "a8":
		n := int(f.kind[1] - '0')
		w := make([]*ai.Term, n)
		for i := range w {
			w[i] = leK(st, s, f.off+int64(8*i), 8)
		}
		return r.Op == ai.OStruct && same(st, r, ai.Struct(w...))
	case "time":
		t := stripZone(r)
		return t != nil && t.Op == ai.OApp && t.S == "time.Unix" && len(t.A) == 2 && same(st, t.A[0], leK(st, s, f.off, 8)) &&
			same(st, t.A[1], ai.ZExt(64, leK(st, s, f.off+8, 4)))
	case "zero8":
		return decides(x, st, r, ai.Eq(leK(st, s, f.off, 1), ai.Int(8, 0)))
	case "is2":
		return decides(x, st, r, ai.Eq(leK(st, s, f.off, 1), ai.Int(8, 2)))
	case "is132":
		return decides(x, st, r, ai.Eq(leK(st, s, f.off, 1), ai.Int(8, 132)))
	case "geneq":
		return decides(x, st, r, ai.Eq(leK(st, s, 160, 8), leK(st, s, 239, 8)))
	case "shorter":
		return decides(x, st, r, ai.Lt(true, s.A[2], ai.I64(f.off)))
	case "dirdata":
		nl, dl := leK(st, s, 27, 2), leK(st, s, 25, 2)
		return strIs(st, r, s, ai.Add(ai.I64(30), ai.ZExt(64, nl)), ai.ZExt(64, dl))
	case "inline":
		return strIs(st, r, s, ai.I64(21), leK(st, s, 8, 8))
	case "elem32":
		off := ai.Add(ai.I64(f.off), ai.Mul(ai.I64(32), ai.ZExt(64, args[1])))
		return subIs(st, r, s, off, ai.I64(32))
	case "sub160":
		return subIs(st, r, s, ai.I64(0), ai.I64(160))
	}
	return false
}

// subIs reports whether r is a part of slice s beginning at off and holding at
// least n bytes.
func subIs(st *ai.State, r, s, off, n *ai.Term) bool {
	return r.Op == ai.OSlice && r.A[0] == s.A[0] && same(st, r.A[1], ai.Add(s.A[1], off)) && holds(st, ai.Le(true, n, r.A[2]))
}

// leafAccessors decides the accessors of leaves and of stored items, whose
// fields lie at positions that depend on other fields.
func (c *Check) leafAccessors() {
	type la struct {
		typ, name string
	}
	for _, k := range []la{{"Item", "Data"}, {"Leaf", "Header"}, {"Leaf", "Len"}, {"Leaf", "Item"}, {"Leaf", "Key"}, {"Leaf", "Data"}} {
		fn := c.P.methodsOf(btrfsPkg, k.typ)[k.name]
		if fn == nil {
			c.Counts["absent_methods"]++
			continue
		}
		where := fnShort(fn)
		hdr := func(i *ai.Term) *ai.Term { return ai.Add(ai.I64(101), ai.Mul(ai.I64(25), i)) }
		x, args, outs := c.run(fn, func(x *ai.Exec, st *ai.State, a []*ai.Term) {
			s := a[0]
			l := s.A[2]
			x.Assume(st, ai.Le(true, l, ai.I64(1<<20)))
			switch k.typ + "." + k.name {
			case "Item.Data":
				x.Assume(st, ai.Le(true, ai.I64(25), l))
				x.Assume(st, ai.Le(true, ai.Add(ai.I64(25), ai.ZExt(64, leK(st, s, 21, 4))), l))
			case "Leaf.Header":
				x.Assume(st, ai.Le(true, ai.I64(101), l))
			case "Leaf.Len":
				x.Assume(st, ai.Le(true, ai.I64(101), l))
				x.Assume(st, ai.Le(true, hdr(ai.ZExt(64, leK(st, s, 96, 4))), l))
			default:
				x.Assume(st, ai.Le(true, ai.I64(0), a[1]))
				x.Assume(st, ai.Le(true, a[1], ai.I64(1<<16)))
				x.Assume(st, ai.Le(true, hdr(ai.AddK(a[1], 1)), l))
				if k.name == "Data" {
					h := hdr(a[1])
					o := ai.ZExt(64, le(st, s, ai.AddK(h, 17), 4))
					z := ai.ZExt(64, le(st, s, ai.AddK(h, 21), 4))
					x.Assume(st, ai.Le(true, ai.Add(ai.I64(101), ai.Add(o, z)), l))
				}
			}
		}, nil)
		for _, o := range outs {
			if o.Kind != "return" {
				c.Ob(false, "field", where, c.pos(fn.Pos()), "does not return for a complete structure")
				continue
			}
			st, s, r := o.St, args[0], o.Ret
			ok := false
			switch k.typ + "." + k.name {
			case "Item.Data":
				n := ai.ZExt(64, leK(st, s, 21, 4))
				ok = subIs(st, r, s, ai.I64(25), n) && same(st, r.A[2], n)
			case "Leaf.Header":
				ok = subIs(st, r, s, ai.I64(0), ai.I64(101))
			case "Leaf.Len":
				ok = same(st, r, ai.ZExt(64, leK(st, s, 96, 4)))
			case "Leaf.Item":
				ok = subIs(st, r, s, hdr(args[1]), ai.I64(25))
			case "Leaf.Key":
				ok = r.Op == ai.OStruct && same(st, r, keyAt(st, s, hdr(args[1])))
			case "Leaf.Data":
				h := hdr(args[1])
				off := ai.ZExt(64, le(st, s, ai.AddK(h, 17), 4))
				z := ai.ZExt(64, le(st, s, ai.AddK(h, 21), 4))
				ok = r.Op == ai.OSlice && same(st, r.A[2], z) && (holds(st, ai.Eq(z, ai.I64(0))) || subIs(st, r, s, ai.Add(ai.I64(101), off), z))
			}
			c.Ob(ok, "field", where, c.pos(fn.Pos()), "returns %v", o.Ret)
		}
		_ = x
	}
}

// parseBuffer decides the sequential decoder: each Next method returns the
// little-endian field at the current offset and advances past it.
func (c *Check) parseBuffer() {
	mk := c.P.fn(btrfsPkg + ":NewParseBuffer")
	ms := c.P.methodsOf(btrfsPkg, "ParseBuffer")
	if mk == nil {
		c.Counts["absent_methods"]++
		return
	}
	for _, k := range []struct {
		n string
		w int
	}{{"NextUint8", 1}, {"NextUint16", 2}, {"NextUint32", 4}, {"NextUint64", 8}, {"NextTime", 12}} {
		fn, setOff, getOff := ms[k.n], ms["SetOffset"], ms["Offset"]
		if fn == nil || setOff == nil || getOff == nil {
			c.Counts["absent_methods"]++
			continue
		}
		where := fnShort(fn)
		x, st := c.W.Exec()
		buf := x.Params(mk)
		outs := x.Run(mk, buf, st)
		if len(outs) != 1 || outs[0].Kind != "return" {
			c.Fail(where, "NewParseBuffer has %d outcomes", len(outs))
			continue
		}
		b := outs[0].Ret
		off := ai.Sym("off", 64, types.Typ[types.Int])
		x.Assume(outs[0].St, ai.Le(true, ai.I64(0), off))
		x.Assume(outs[0].St, ai.Le(true, off, ai.I64(1<<40)))
		x.Assume(outs[0].St, ai.Le(true, ai.AddK(off, int64(k.w)), buf[0].A[2]))
		outs = x.Run(setOff, []*ai.Term{b, off}, outs[0].St)
		for _, o := range outs {
			for _, p := range x.Run(fn, []*ai.Term{b}, o.St) {
				ok := p.Kind == "return"
				if ok {
					switch k.w {
					case 12:
						t := stripZone(p.Ret)
						ok = t.Op == ai.OApp && t.S == "time.Unix" && same(p.St, t.A[0], le(p.St, buf[0], off, 8)) &&
							same(p.St, t.A[1], ai.ZExt(64, le(p.St, buf[0], ai.AddK(off, 8), 4)))
					default:
						ok = same(p.St, p.Ret, le(p.St, buf[0], off, k.w))
					}
				}
				c.Ob(ok, "field", where, c.pos(fn.Pos()), "returns %v", p.Ret)
				if p.Kind != "return" {
					continue
				}
				for _, q := range x.Run(getOff, []*ai.Term{b}, p.St) {
					c.Ob(q.Kind == "return" && same(q.St, q.Ret, ai.AddK(off, int64(k.w))), "field", where+" advance", c.pos(fn.Pos()), "offset afterwards is %v", q.Ret)
				}
			}
		}
		c.saw(fn)
		c.Errs(x, where)
	}
}
