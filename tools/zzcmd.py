# Go source shared by the demonstrations for package cmd.
HEAD='''
package cmd

import (
%s	"os"
	"path/filepath"
	"testing"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

type zz struct {
	owner uint64
	key   btrfs.Key
	data  []byte
}

func zzDir(owner, dir uint64, name string, typ uint8, id uint64) zz {
	k := btrfs.Key{ObjectID: id, Type: btrfs.InodeItemKey}
	return zz{owner, btrfs.Key{ObjectID: dir, Type: btrfs.DirItemKey,
		Offset: uint64(index.NameHash(name))}, makeDirItem(k, typ, name)}
}

func zzSub(owner, dir uint64, name string, id uint64) zz {
	k := btrfs.Key{ObjectID: id, Type: btrfs.RootItemKey, Offset: ^uint64(0)}
	return zz{owner, btrfs.Key{ObjectID: dir, Type: btrfs.DirItemKey,
		Offset: uint64(index.NameHash(name))}, makeDirItem(k, btrfs.FtDir, name)}
}

func zzRoot(id uint64) zz {
	return zz{btrfs.RootTreeObjectID, btrfs.Key{ObjectID: id, Type: btrfs.RootItemKey},
		make([]byte, btrfs.RootItemLen)}
}

func zzInode(owner, id, size uint64, mode uint32) zz {
	return zz{owner, btrfs.Key{ObjectID: id, Type: btrfs.InodeItemKey}, makeInodeItem(size, mode)}
}

func zzData(owner, id, off uint64, data []byte) zz {
	return zz{owner, btrfs.Key{ObjectID: id, Type: btrfs.ExtentDataKey, Offset: off}, data}
}

func zzText(owner, id uint64, text string) zz {
	return zzData(owner, id, 0, makeInlineFileExtentItem([]byte(text)))
}

func zzChunk(logical, length, physical uint64) zz {
	return zz{btrfs.ChunkTreeObjectID, btrfs.Key{ObjectID: btrfs.FirstFreeObjectID,
		Type: btrfs.ChunkItemKey, Offset: logical}, makeChunk(length, 1, physical)}
}

// zzMeta makes a metadata database and an image below dir.
func zzMeta(t *testing.T, dir string, image []byte, items ...zz) (meta, img string) {
	fsid := uuid.UUID{1, 2, 3}
	meta, img = filepath.Join(dir, "meta"), filepath.Join(dir, "img")
	ix, err := index.Open(meta, 0644, &index.Options{BlockSize: 4096, FSID: fsid, Generation: 1})
	if err != nil {
		t.Fatal(err)
	}
	for _, i := range items {
		if err := ix.InsertItem(i.key, makeHeader(i.owner, 1, fsid),
			makeItem(i.key, 0, uint32(len(i.data))), i.data); err != nil {
			t.Fatal(err)
		}
	}
	ix.Close()
	if err := os.WriteFile(img, image, 0644); err != nil {
		t.Fatal(err)
	}
	return
}

func zzRead(t *testing.T, p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}
'''
def head(*imports): return HEAD%''.join('\t"%s"\n'%i for i in imports)
