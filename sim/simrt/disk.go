package simrt

import (
	"bytes"
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

// DiskAction is what a fault plan decides for one file operation.
type DiskAction int

const (
	DiskOK DiskAction = iota
	DiskENOSPC
	DiskEIO
	DiskShort // a write stores a prefix and fails with ENOSPC
	DiskCrash // the node dies at this operation (a write may be torn)
)

func (a DiskAction) String() string {
	return [...]string{"ok", "enospc", "eio", "short", "crash"}[a]
}

type fileRec struct {
	path   string
	synced []byte // content as of the last fsync (nil: never synced)
	dirty  bool
}

type renameRec struct {
	old, new string
	had      bool
	before   []byte // content of new before the rename
	rec      *fileRec
	prevRec  *fileRec
}

// NodeDisk is the disk of one incarnation of one node: a directory with real files, plus a record
// of which bytes an fsync made durable.
type NodeDisk struct {
	Dir    string
	Ops    int
	Frozen bool // the node is dead: no operation has any effect any more
	Plan   func(n int, op int, path string) DiskAction
	// OnRenamed is called after a rename took place.
	OnRenamed func(newpath string)
	OnCrash   func() // must not return normally for the calling goroutine
	Rng       *Rng
	// LoseRenames: renames which no later fsync followed may be lost by a power failure.
	LoseRenames bool
	Stats       map[string]int

	files   map[string]*fileRec
	open    map[*os.File]*fileRec
	pending []renameRec
}

var disks []*NodeDisk

// InstallDisk routes file operations of this process through the simulated disks.
func InstallDisk() { os.SimFS = simFS }

// NewDisk registers the disk rooted at dir.
func NewDisk(dir string, rng *Rng) *NodeDisk {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	d := &NodeDisk{Dir: filepath.Clean(dir) + "/", Rng: rng, files: map[string]*fileRec{}, open: map[*os.File]*fileRec{}, Stats: map[string]int{}}
	disks = append(disks, d)
	return d
}

// Close unregisters the disk.
func (d *NodeDisk) Close() {
	for i, x := range disks {
		if x == d {
			disks = append(disks[:i:i], disks[i+1:]...)
			return
		}
	}
}

func diskFor(path string) *NodeDisk {
	for _, d := range disks {
		if strings.HasPrefix(path, d.Dir) {
			return d
		}
	}
	return nil
}

var errDead = errors.New("simulated node is dead")

var busy bool // set while the simulator itself does file I/O

func raw(f func()) {
	old := busy
	busy = true
	defer func() { busy = old }()
	f()
}

func readRaw(path string) (b []byte, ok bool) {
	raw(func() {
		x, err := os.ReadFile(path)
		b, ok = x, err == nil
	})
	return
}

const wrFlags = os.O_WRONLY | os.O_RDWR

func simFS(op int, path, newpath string, flag int, f *os.File, data *[]byte) error {
	if busy {
		return nil
	}
	d := diskFor(path)
	if d == nil {
		return nil
	}
	if d.Frozen {
		if d.OnCrash != nil {
			d.OnCrash()
		}
		return errDead
	}
	switch op {
	case os.SimOpened:
		if flag&wrFlags != 0 {
			r := d.files[path]
			if r == nil {
				r = &fileRec{path: path}
				d.files[path] = r
			}
			r.dirty = true
			d.open[f] = r
		}
		return nil
	case os.SimRenamed:
		if d.OnRenamed != nil {
			d.OnRenamed(newpath)
		}
		return nil
	case os.SimOpen:
		if flag&wrFlags != 0 && d.files[path] == nil {
			if old, ok := readRaw(path); ok {
				d.files[path] = &fileRec{path: path, synced: old}
			}
		}
	}
	d.Ops++
	act := DiskOK
	if d.Plan != nil {
		act = d.Plan(d.Ops, op, path)
	}
	switch act {
	case DiskENOSPC:
		if op == os.SimRead {
			break
		}
		d.Stats["enospc"]++
		if data != nil {
			*data = (*data)[:0]
		}
		return syscall.ENOSPC
	case DiskEIO:
		d.Stats["eio"]++
		if data != nil {
			*data = (*data)[:0]
		}
		return syscall.EIO
	case DiskShort:
		if op != os.SimWrite {
			break
		}
		d.Stats["short_write"]++
		*data = (*data)[:d.Rng.Intn(len(*data)+1)]
		return syscall.ENOSPC
	case DiskCrash:
		d.Stats["crash_in_io"]++
		if op == os.SimWrite {
			n := d.Rng.Intn(len(*data) + 1)
			raw(func() { f.Write((*data)[:n]) })
		}
		d.Frozen = true
		d.OnCrash()
		return errDead
	}
	switch op {
	case os.SimWrite:
		if r := d.open[f]; r != nil {
			r.dirty = true
		}
	case os.SimSync:
		if r := d.open[f]; r != nil {
			b, _ := readRaw(r.path)
			r.synced, r.dirty = b, false
		}
		d.pending = nil
	case os.SimRename:
		before, had := readRaw(newpath)
		r := d.files[path]
		d.pending = append(d.pending, renameRec{old: path, new: newpath, had: had, before: before, rec: r, prevRec: d.files[newpath]})
		delete(d.files, path)
		if r != nil {
			r.path = newpath
			d.files[newpath] = r
		} else {
			delete(d.files, newpath)
		}
	}
	return nil
}

// Snapshot returns what the disk holds after the node died. With power=false (process killed) all
// written data is there; with power=true data not fsynced may be lost or torn and, with
// LoseRenames, so may be the most recent renames.
func (d *NodeDisk) Snapshot(power bool) map[string][]byte {
	out := map[string][]byte{}
	raw(func() {
		filepath.Walk(d.Dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				fh, e := os.Open(p)
				if e == nil {
					b, _ := io.ReadAll(fh)
					fh.Close()
					out[strings.TrimPrefix(p, d.Dir)] = b
				}
			}
			return nil
		})
	})
	if !power {
		return out
	}
	rel := func(p string) string { return strings.TrimPrefix(p, d.Dir) }
	if d.LoseRenames && len(d.pending) > 0 && d.Rng.P(0.5) {
		keep := d.Rng.Intn(len(d.pending))
		for i := len(d.pending) - 1; i >= keep; i-- {
			r := d.pending[i]
			d.Stats["rename_lost"]++
			out[rel(r.old)] = out[rel(r.new)]
			if r.rec != nil {
				d.files[r.old] = r.rec
				r.rec.path = r.old
			}
			if r.had {
				out[rel(r.new)] = r.before
			} else {
				delete(out, rel(r.new))
			}
			if r.prevRec != nil {
				d.files[r.new] = r.prevRec
			} else {
				delete(d.files, r.new)
			}
		}
	}
	names := make([]string, 0, len(d.files))
	for p := range d.files {
		names = append(names, p)
	}
	sortStrings(names)
	for _, p := range names {
		r := d.files[p]
		cur, ok := out[rel(p)]
		if !ok || !r.dirty || bytes.Equal(cur, r.synced) {
			continue
		}
		d.Stats["unsynced_lost"]++
		switch d.Rng.Intn(4) {
		case 0:
			out[rel(p)] = r.synced
		case 1:
			out[rel(p)] = nil
		case 2:
			out[rel(p)] = cur[:d.Rng.Intn(len(cur)+1)]
		case 3: // length on disk, tail blocks not
			b := append([]byte{}, cur...)
			for i := d.Rng.Intn(len(b) + 1); i < len(b); i++ {
				b[i] = 0
			}
			out[rel(p)] = b
		}
	}
	return out
}

// Restore writes a snapshot into a fresh disk directory.
func (d *NodeDisk) Restore(files map[string][]byte) {
	raw(func() {
		for p, b := range files {
			full := filepath.Join(d.Dir, p)
			os.MkdirAll(filepath.Dir(full), 0o755)
			if err := os.WriteFile(full, b, 0o644); err != nil {
				panic(err)
			}
		}
	})
}

// Raw runs simulator file I/O outside the simulated disks.
func Raw(f func()) { raw(f) }

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
