package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func neg(n uint64) uint64 { return -n }

var formatConsts = map[string]uint64{
	"Magic": 0x4d5f53665248425f, "X86RegularPageSize": 4096, "DefaultBlockSize": 16384,
	"SuperInfoOffset": 0x10000, "SuperInfoOffset2": 0x4000000, "SuperInfoOffset3": 0x4000000000, "SuperInfoOffset4": 0x4000000000000,

	"RootTreeObjectID": 1, "ExtentTreeObjectID": 2, "ChunkTreeObjectID": 3, "DevTreeObjectID": 4, "FSTreeObjectID": 5,
	"RootTreeDirObjectID": 6, "CSumTreeObjectID": 7, "QuotaTreeObjectID": 8, "UuidTreeObjectID": 9, "FreeSpaceTreeObjectID": 10,
	"DevStatsObjectID": 0, "BalanceObjectID": neg(4), "OrphanObjectID": neg(5), "TreeLogObjectID": neg(6), "TreeLogFixupObjectID": neg(7),
	"TreeRelocObjectID": neg(8), "DataRelocTreeObjectID": neg(9), "ExtentCSumObjectID": neg(10), "FreeSpaceObjectID": neg(11),
	"FreeInoObjectID": neg(12), "MultipleObjectIDs": neg(255), "FirstFreeObjectID": 256, "LastFreeObjectID": neg(256),
	"FirstChunkTreeObjectID": 256, "DevItemsObjectID": 1, "BtreeInodeObjectID": 1, "EmptySubvolDirObjectID": 2, "LastObjectID": neg(1),

	"InodeItemKey": 1, "InodeRefKey": 12, "InodeExtrefKey": 13, "XAttrItemKey": 24, "OrphanItemKey": 48, "DirLogItemKey": 60,
	"DirLogIndexKey": 72, "DirItemKey": 84, "DirIndexKey": 96, "ExtentDataKey": 108, "ExtentCSumKey": 128, "RootItemKey": 132,
	"RootBackRefKey": 144, "RootRefKey": 156, "ExtentItemKey": 168, "MetadataItemKey": 169, "TreeBlockRefKey": 176, "ExtentDataRefKey": 178,
	"ExtentRefV0Key": 180, "SharedBlockRefKey": 182, "SharedDataRefKey": 184, "BlockGroupItemKey": 192, "FreeSpaceInfoKey": 198,
	"FreeSpaceExtentKey": 199, "FreeSpaceBitmapKey": 200, "DevExtentKey": 204, "DevItemKey": 216, "ChunkItemKey": 228, "QgroupStatusKey": 240,
	"QgroupInfoKey": 242, "QgroupLimitKey": 244, "QgroupRelationKey": 246, "BalanceItemKey": 248, "TemporaryItemKey": 248, "DevStatsKey": 249,
	"PersistentItemKey": 249, "DevReplaceKey": 250, "UUIDKeySubvol": 251, "UUIDKeyReceivedSubvol": 252, "StringItemKey": 253,

	"FtUnknown": 0, "FtRegFile": 1, "FtDir": 2, "FtChrdev": 3, "FtBlkdev": 4, "FtFifo": 5, "FtSock": 6, "FtSymlink": 7, "FtXattr": 8, "FtMax": 9,
	"BlockGroupData": 1, "BlockGroupSystem": 2, "BlockGroupMetadata": 4, "BlockGroupRaid0": 8, "BlockGroupRaid1": 16, "BlockGroupDup": 32,
	"BlockGroupRaid10": 64, "BlockGroupRaid5": 128, "BlockGroupRaid6": 256,
	"FileExtentInline": 0, "FileExtentReg": 1, "FileExtentPreAlloc": 2,
	"ExtentFlagData": 1, "ExtentFlagTreeBlock": 2, "ExtentFlagFullBackref": 256,
}

// value -> names that the format knows it by
var objectNames = map[uint64][]string{
	1: {"ROOT_TREE"}, 2: {"EXTENT_TREE"}, 3: {"CHUNK_TREE"}, 4: {"DEV_TREE"}, 5: {"FS_TREE"}, 6: {"ROOT_TREE_DIR"}, 7: {"CSUM_TREE"},
	8: {"QUOTA_TREE"}, 9: {"UUID", "UUID_TREE"}, 10: {"FREE_SPACE_TREE"}, 0: {"DEV_STATS"}, neg(4): {"BALANCE"}, neg(5): {"ORPHAN"},
	neg(6): {"TREE_LOG"}, neg(7): {"TREE_LOG_FIXUP"}, neg(8): {"TREE_RELOC"}, neg(9): {"DATA_RELOC_TREE"}, neg(10): {"EXTENT_CSUM"},
	neg(11): {"FREE_SPACE"}, neg(12): {"FREE_INO"}, neg(255): {"MULTIPLE"}, 256: {"FIRST_FREE"}, neg(256): {"LAST_FREE"},
}

var keyNames = map[uint64][]string{
	1: {"INODE_ITEM"}, 12: {"INODE_REF"}, 13: {"INODE_EXTREF"}, 24: {"XATTR_ITEM"}, 48: {"ORPHAN_ITEM"}, 60: {"DIR_LOG_ITEM"},
	72: {"DIR_LOG_INDEX"}, 84: {"DIR_ITEM"}, 96: {"DIR_INDEX"}, 108: {"EXTENT_DATA"}, 128: {"EXTENT_CSUM"}, 132: {"ROOT_ITEM"},
	144: {"ROOT_BACKREF"}, 156: {"ROOT_REF"}, 168: {"EXTENT_ITEM"}, 169: {"METADATA_ITEM"}, 176: {"TREE_BLOCK_REF"}, 178: {"EXTENT_DATA_REF"},
	180: {"EXTENT_REF_V0"}, 182: {"SHARED_BLOCK_REF"}, 184: {"SHARED_DATA_REF"}, 192: {"BLOCK_GROUP_ITEM"}, 198: {"FREE_SPACE_INFO"},
	199: {"FREE_SPACE_EXTENT"}, 200: {"FREE_SPACE_BITMAP"}, 204: {"DEV_EXTENT"}, 216: {"DEV_ITEM"}, 228: {"CHUNK_ITEM"}, 240: {"QGROUP_STATUS"},
	242: {"QGROUP_INFO"}, 244: {"QGROUP_LIMIT"}, 246: {"QGROUP_RELATION"}, 248: {"TEMPORARY_ITEM"}, 249: {"PERSISTENT_ITEM"},
	250: {"DEV_REPLACE"}, 251: {"UUID_SUBVOL", "UUID_KEY_SUBVOL"}, 252: {"UUID_RECEIVED_SUBVOL", "UUID_KEY_RECEIVED_SUBVOL"}, 253: {"STRING_ITEM"},
}

func init() {
	checks["C07"] = func(c *Check) {
		c.Rules = map[string]string{
			"constant": "a format constant has the value of the on-disk format",
			"name":     "the text for a value is the name belonging to it; other values print as their own number",
			"coverage": "every key type constant has a printed name",
			"key":      "a key prints its object id, type and offset in this order",
		}
		for _, n := range sortedKeys(formatConsts) {
			v, _, ok := c.P.constOf(btrfsPkg, n)
			if !ok {
				c.Counts["absent_constants"]++
				continue
			}
			c.Ob(v == formatConsts[n], "constant", n, "", "%s is %d (%#x), the format has %d", n, v, v, formatConsts[n])
		}
		// key type constants the program declares besides those
		if q := c.P.ByPth[module+"/"+btrfsPkg]; q != nil && q.Types != nil {
			for _, n := range q.Types.Scope().Names() {
				k, ok := q.Types.Scope().Lookup(n).(*types.Const)
				if !ok || formatConsts[n] != 0 || k.Val().Kind() != constant.Int || !strings.HasSuffix(n, "Key") {
					continue
				}
				c.Counts["constants_without_oracle"]++
			}
		}
		c.names("ObjectIDString", objectNames, 64)
		c.names("KeyTypeString", keyNames, 8)
		c.keyString()
	}
}

// intConsts gathers the integer constants of a function, of what it calls in
// its package and of the package's variable initialisation.
func intConsts(f *ssa.Function, w int) []uint64 {
	seen := map[uint64]bool{}
	var all []*ssa.Function
	if f.Pkg != nil {
		for _, m := range f.Pkg.Members {
			if g, ok := m.(*ssa.Function); ok {
				all = append(all, g)
				all = append(all, g.AnonFuncs...)
			}
		}
	}
	for _, g := range all {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
						if v, ok := constant.Uint64Val(k.Value); ok && (w == 64 || v>>uint(w) == 0) {
							seen[v] = true
						} else if i, ok := constant.Int64Val(k.Value); ok && w == 64 {
							seen[uint64(i)] = true
						}
					}
				}
			}
		}
	}
	var r []uint64
	for v := range seen {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (c *Check) names(fname string, names map[uint64][]string, w int) {
	f := c.Need(btrfsPkg + ":" + fname)
	if f == nil {
		return
	}
	vals := map[uint64]bool{}
	if w == 8 {
		for v := uint64(0); v < 256; v++ {
			vals[v] = true
		}
	} else {
		for _, v := range intConsts(f, w) {
			vals[v] = true
		}
		for v := range names {
			vals[v] = true
		}
	}
	var order []uint64
	for v := range vals {
		order = append(order, v)
	}
	sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	where := fnShort(f)
	used := map[string]uint64{}
	judge := func(x *ai.Exec, o ai.Outcome, arg *ai.Term, v uint64, known bool) {
		tag := where + "(other values)"
		if known {
			tag = where + "(" + ai.I64(int64(v)).String() + ")"
		}
		if o.Kind != "return" {
			c.Ob(false, "name", tag, c.pos(f.Pos()), "does not return")
			return
		}
		if s := o.Ret; s.Op == ai.OStr {
			if prev, dup := used[s.S]; dup && known && prev != v {
				c.Ob(false, "name", tag, c.pos(f.Pos()), "prints %q like %d", s.S, prev)
			}
			if known {
				used[s.S] = v
			}
			ok := known && (has(names[v], s.S) || len(names[v]) == 0 && s.S == decimal(v))
			c.Ob(ok, "name", tag, c.pos(f.Pos()), "prints %q", s.S)
			return
		}
		// text that contains the number itself is unambiguous
		ok := len(names[v]) == 0 || !known
		ok = ok && printsNumber(o.St, o.Ret, arg, v, known)
		c.Ob(ok, "name", tag, c.pos(f.Pos()), "prints %v", o.Ret)
		if known && len(names[v]) > 0 {
			c.Ob(false, "coverage", tag, c.pos(f.Pos()), "has no name")
		}
	}
	for _, v := range order {
		x, st := c.W.Exec()
		arg := ai.Int(w, v)
		for _, o := range x.Run(f, []*ai.Term{arg}, st) {
			judge(x, o, arg, v, true)
		}
		c.Errs(x, where)
		c.Counts["values"]++
	}
	if w == 64 {
		x, st := c.W.Exec()
		arg := x.Params(f)[0]
		for _, v := range order {
			x.Assume(st, ai.Not(ai.Eq(arg, ai.Int(64, v))))
		}
		outs := x.Run(f, []*ai.Term{arg}, st)
		for _, o := range outs {
			judge(x, o, arg, 0, false)
		}
		c.Errs(x, where)
	}
	c.saw(f)
}

func has(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

func decimal(v uint64) string {
	return constant.MakeUint64(v).ExactString()
}

// printsNumber recognises decimal renderings of arg.
func printsNumber(st *ai.State, r, arg *ai.Term, v uint64, known bool) bool {
	if r.Op == ai.OStr {
		return known && r.S == decimal(v)
	}
	if r.Op != ai.OApp {
		return false
	}
	switch r.S {
	case "fmt.Sprint", "fmt.Sprintf", "strconv.FormatUint", "strconv.FormatInt", "strconv.Itoa", "cat":
	default:
		return false
	}
	found := false
	for _, a := range r.A {
		a.Walk(func(t *ai.Term) bool {
			if t == arg || t == ai.ZExt(64, arg) || t.Op == ai.OInt && arg.Op == ai.OInt && t.K == arg.K {
				found = true
			}
			return !found
		})
	}
	return found
}

func (c *Check) keyString() {
	f := c.P.methodsOf(btrfsPkg, "Key")["String"]
	if f == nil {
		return
	}
	x, st := c.W.Exec()
	x.Anchor = pureAnchor(func(g *ssa.Function) bool { return g.Name() == "ObjectIDString" || g.Name() == "KeyTypeString" })
	args := x.Params(f)
	for _, o := range x.Run(f, args, st) {
		var seq []string
		if o.Kind == "return" {
			o.Ret.Walk(func(t *ai.Term) bool {
				n := ""
				switch {
				case t.Op == ai.OApp && strings.HasSuffix(t.S, "ObjectIDString") && same(o.St, t.A[0], args[0].A[0]):
					n = "objectid"
				case t.Op == ai.OApp && strings.HasSuffix(t.S, "KeyTypeString") && same(o.St, t.A[0], args[0].A[1]):
					n = "type"
				case t == args[0].A[2]:
					n = "offset"
				}
				if n != "" {
					seq = append(seq, n)
					return false
				}
				return true
			})
		}
		c.Ob(strings.Join(seq, " ") == "objectid type offset", "key", fnShort(f), c.pos(f.Pos()), "prints %v as %v", seq, o.Ret)
	}
	c.saw(f)
	c.Errs(x, fnShort(f))
}
