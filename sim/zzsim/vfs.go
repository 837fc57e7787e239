package zzsim

import (
	"encoding/binary"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// FS is the simulated disk shared by all simulated processes of a run: a tree
// of inodes with a volatile and a durable state.
type FS struct {
	root     *inode
	nextIno  uint64
	dirSeed  uint64 // permutes directory listings; 0: sorted
	undo     []func()
	writeGen int
	byName   func(path string) bool // files known by the name they are opened under
}

type inode struct {
	ino    uint64
	mode   uint32
	data   []byte
	kids   map[string]*inode
	target string
	nlink  int
	// durable content; dirty says that data differs from it
	durable []byte
	dirty   bool
	lock    int // flock holder count (exclusive: -1)
}

type openFile struct {
	ino    *inode
	path   string // resolved path at open time (for roles and traces)
	off    int64
	flags  int
	dents  []dent
	listed bool
}

type dent struct {
	name string
	ino  *inode
}

const (
	sIFDIR = 0x4000
	sIFREG = 0x8000
	sIFLNK = 0xa000
	sIFMT  = 0xf000
)

func NewFS() *FS {
	fs := &FS{}
	fs.root = fs.newInode(sIFDIR | 0755)
	return fs
}

func (fs *FS) newInode(mode uint32) *inode {
	fs.nextIno++
	n := &inode{ino: fs.nextIno, mode: mode, nlink: 1}
	if mode&sIFMT == sIFDIR {
		n.kids = map[string]*inode{}
	}
	return n
}

func (n *inode) isDir() bool { return n.mode&sIFMT == sIFDIR }

func splitPath(p string) []string {
	var out []string
	for _, s := range strings.Split(p, "/") {
		if s != "" && s != "." {
			out = append(out, s)
		}
	}
	return out
}

// resolve walks p (absolute or relative to base) and returns the parent
// directory, the final name, the inode (nil if missing) and the clean path.
func (fs *FS) resolve(base, p string, follow bool) (par *inode, name string, n *inode, full string, e syscall.Errno) {
	return fs.resolveDepth(base, p, follow, 0)
}

func (fs *FS) resolveDepth(base, p string, follow bool, depth int) (par *inode, name string, n *inode, full string, e syscall.Errno) {
	if p == "" {
		return nil, "", nil, "", syscall.ENOENT
	}
	if len(p) > 4095 {
		return nil, "", nil, "", syscall.ENAMETOOLONG
	}
	if strings.IndexByte(p, 0) >= 0 {
		return nil, "", nil, "", syscall.EINVAL
	}
	if !strings.HasPrefix(p, "/") {
		p = base + "/" + p
	}
	wantDir := strings.HasSuffix(p, "/")
	parts := splitPath(p)
	cur := fs.root
	var stack []*inode
	var names []string
	for i := 0; i < len(parts); i++ {
		s := parts[i]
		if len(s) > 255 {
			return nil, "", nil, "", syscall.ENAMETOOLONG
		}
		if s == ".." {
			if len(stack) > 0 {
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				names = names[:len(names)-1]
			}
			continue
		}
		if !cur.isDir() {
			return nil, "", nil, "", syscall.ENOTDIR
		}
		next := cur.kids[s]
		last := i == len(parts)-1
		if next == nil {
			if last {
				return cur, s, nil, "/" + strings.Join(append(names, s), "/"), 0
			}
			return nil, "", nil, "", syscall.ENOENT
		}
		if next.mode&sIFMT == sIFLNK && (!last || follow) {
			if depth > 20 {
				return nil, "", nil, "", syscall.ELOOP
			}
			t := next.target
			rest := strings.Join(parts[i+1:], "/")
			if rest != "" {
				t += "/" + rest
			}
			return fs.resolveDepth("/"+strings.Join(names, "/"), t, follow, depth+1)
		}
		stack = append(stack, cur)
		names = append(names, s)
		par, name = cur, s
		cur = next
	}
	if wantDir && !cur.isDir() {
		return nil, "", nil, "", syscall.ENOTDIR
	}
	if len(names) == 0 {
		return fs.root, "", fs.root, "/", 0
	}
	if len(stack) > 0 {
		par, name = stack[len(stack)-1], names[len(names)-1]
	}
	return par, name, cur, "/" + strings.Join(names, "/"), 0
}

// --- set-up and inspection by the simulator (no faults, durable at once) ----

func (fs *FS) MkdirAll(p string) *inode {
	cur := fs.root
	for _, s := range splitPath(p) {
		n := cur.kids[s]
		if n == nil {
			n = fs.newInode(sIFDIR | 0755)
			cur.kids[s] = n
		}
		cur = n
	}
	return cur
}

func (fs *FS) Put(p string, data []byte) *inode {
	i := strings.LastIndexByte(p, '/')
	d := fs.MkdirAll(p[:i])
	n := d.kids[p[i+1:]]
	if n == nil {
		n = fs.newInode(sIFREG | 0644)
		d.kids[p[i+1:]] = n
	}
	n.data = append([]byte(nil), data...)
	n.durable = n.data
	n.dirty = false
	return n
}

func (fs *FS) Symlink(target, p string) {
	i := strings.LastIndexByte(p, '/')
	d := fs.MkdirAll(p[:i])
	n := fs.newInode(sIFLNK | 0777)
	n.target = target
	d.kids[p[i+1:]] = n
}

func (fs *FS) Get(p string) ([]byte, bool) {
	_, _, n, _, e := fs.resolve("/", p, true)
	if e != 0 || n == nil || n.isDir() {
		return nil, false
	}
	return n.data, true
}

func (fs *FS) Exists(p string) bool {
	_, _, n, _, e := fs.resolve("/", p, false)
	return e == 0 && n != nil
}

func (fs *FS) Remove(p string) {
	par, name, n, _, e := fs.resolve("/", p, false)
	if e == 0 && n != nil {
		delete(par.kids, name)
	}
}

// Snapshot lists every file with its content and every directory.
func (fs *FS) Snapshot() map[string]string {
	out := map[string]string{}
	var walk func(p string, n *inode)
	walk = func(p string, n *inode) {
		switch n.mode & sIFMT {
		case sIFDIR:
			if p != "" {
				out[p+"/"] = ""
			}
			for k, c := range n.kids {
				walk(p+"/"+k, c)
			}
		case sIFLNK:
			out[p] = "->" + n.target
		default:
			out[p] = string(n.data)
		}
	}
	walk("", fs.root)
	return out
}

func (fs *FS) List(dir string) []string {
	_, _, n, _, e := fs.resolve("/", dir, true)
	if e != 0 || n == nil || !n.isDir() {
		return nil
	}
	var out []string
	for k := range n.kids {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// --- durability --------------------------------------------------------------

// meta records a metadata change that a power loss may undo.
func (fs *FS) meta(undo func()) { fs.undo = append(fs.undo, undo) }

// commit makes everything written to n, and all metadata so far, durable.
func (fs *FS) commit(n *inode) {
	fs.undo = nil
	if n != nil && !n.isDir() {
		n.durable = append([]byte(nil), n.data...)
		n.dirty = false
	}
}

// Settle makes everything durable (the system had time to write back).
func (fs *FS) Settle() {
	fs.undo = nil
	var walk func(n *inode)
	walk = func(n *inode) {
		if n.dirty {
			n.durable = append([]byte(nil), n.data...)
			n.dirty = false
		}
		for _, c := range n.kids {
			walk(c)
		}
	}
	walk(fs.root)
}

// PowerLoss keeps a chosen prefix of the unsynced metadata changes and, for
// each file with unsynced data, nothing, a prefix, zeros or all of it.
func (fs *FS) PowerLoss(ch *Choices) {
	keep := len(fs.undo) - ch.N(len(fs.undo)+1)
	for i := len(fs.undo) - 1; i >= keep; i-- {
		fs.undo[i]()
	}
	fs.undo = nil
	var files []*inode
	var walk func(n *inode)
	walk = func(n *inode) {
		if n.isDir() {
			var ks []string
			for k := range n.kids {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				walk(n.kids[k])
			}
		} else if n.dirty {
			files = append(files, n)
		}
	}
	walk(fs.root)
	for _, n := range files {
		switch ch.N(5) {
		case 0:
		case 1:
			n.data = nil
		case 2:
			n.data = n.data[:ch.N(len(n.data)+1)]
		case 3:
			n.data = make([]byte, len(n.data))
		case 4:
			if len(n.durable) > 0 {
				n.data = append([]byte(nil), n.durable...)
			} else {
				n.data = nil
			}
		}
		n.durable = n.data
		n.dirty = false
	}
}

// --- operations of simulated processes ---------------------------------------

func fillStat(n *inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{Dev: 1, Ino: n.ino, Nlink: uint64(n.nlink), Mode: n.mode, Size: int64(len(n.data)), Blksize: 4096, Blocks: int64(len(n.data)+511) / 512}
	st.Mtim.Sec = 1600000000
	if n.isDir() {
		st.Size = 4096
	}
	if n.mode&sIFMT == sIFLNK {
		st.Size = int64(len(n.target))
	}
}

func (fs *FS) base(p *Proc, dirfd int) (string, syscall.Errno) {
	if dirfd == -100 {
		return p.cwd, 0
	}
	f := p.fds[dirfd]
	if f == nil {
		return "", syscall.EBADF
	}
	return f.path, 0
}

func (fs *FS) open(p *Proc, op *syscall.SimOp) {
	base, e := fs.base(p, op.Fd)
	if e != 0 && !strings.HasPrefix(op.Path, "/") {
		op.Err = e
		return
	}
	par, name, n, full, e := fs.resolve(base, op.Path, op.Flags&syscall.O_NOFOLLOW == 0)
	if e != 0 {
		op.Err = e
		return
	}
	acc := op.Flags & 3
	if n == nil {
		if op.Flags&syscall.O_CREAT == 0 || strings.HasSuffix(op.Path, "/") {
			op.Err = syscall.ENOENT
			return
		}
		n = fs.newInode(sIFREG | (op.Mode & 0777 &^ 022))
		par.kids[name] = n
		nn := n
		fs.meta(func() {
			if par.kids[name] == nn {
				delete(par.kids, name)
			}
		})
	} else {
		if op.Flags&syscall.O_CREAT != 0 && op.Flags&syscall.O_EXCL != 0 {
			op.Err = syscall.EEXIST
			return
		}
		if n.mode&sIFMT == sIFLNK {
			op.Err = syscall.ELOOP
			return
		}
		if n.isDir() && (acc != 0 || op.Flags&syscall.O_CREAT != 0) {
			op.Err = syscall.EISDIR
			return
		}
		if op.Flags&syscall.O_DIRECTORY != 0 && !n.isDir() {
			op.Err = syscall.ENOTDIR
			return
		}
		if op.Flags&syscall.O_TRUNC != 0 && acc != 0 && len(n.data) > 0 {
			fs.truncate(n, 0)
		}
	}
	if fs.byName != nil {
		named := op.Path
		if !strings.HasPrefix(named, "/") {
			named = base + "/" + named
		}
		if named = filepath.Clean(named); fs.byName(named) {
			full = named // faults hit it under this name
		}
	}
	fd := p.nextFd
	p.nextFd++
	p.fds[fd] = &openFile{ino: n, path: full, flags: op.Flags}
	op.N = fd
}

func (fs *FS) truncate(n *inode, size int64) {
	old := n.data
	wasDirty := n.dirty
	fs.meta(func() {
		if !wasDirty {
			n.data = old
			n.dirty = false
		}
	})
	nd := make([]byte, size)
	copy(nd, n.data)
	n.data = nd
	n.dirty = true
}

func (fs *FS) writeAt(n *inode, b []byte, off int64) {
	end := off + int64(len(b))
	nd := make([]byte, max(int64(len(n.data)), end))
	copy(nd, n.data)
	copy(nd[off:], b)
	n.data = nd
	n.dirty = true
}

func (fs *FS) getdents(f *openFile, op *syscall.SimOp) {
	if !f.ino.isDir() {
		op.Err = syscall.ENOTDIR
		return
	}
	if !f.listed {
		f.listed = true
		f.dents = nil
		for k, c := range f.ino.kids {
			f.dents = append(f.dents, dent{k, c})
		}
		seed := fs.dirSeed
		sort.Slice(f.dents, func(i, j int) bool {
			a, b := f.dents[i].name, f.dents[j].name
			if seed != 0 {
				ha, hb := mix64(hashStr(a)^seed), mix64(hashStr(b)^seed)
				if ha != hb {
					return ha < hb
				}
			}
			return a < b
		})
	}
	n := 0
	for len(f.dents) > 0 {
		d := f.dents[0]
		rl := (19 + len(d.name) + 1 + 7) &^ 7
		if n+rl > len(op.Buf) {
			break
		}
		b := op.Buf[n : n+rl]
		clear(b)
		binary.LittleEndian.PutUint64(b, d.ino.ino)
		binary.LittleEndian.PutUint64(b[8:], uint64(n+rl))
		binary.LittleEndian.PutUint16(b[16:], uint16(rl))
		switch d.ino.mode & sIFMT {
		case sIFDIR:
			b[18] = 4
		case sIFLNK:
			b[18] = 10
		default:
			b[18] = 8
		}
		copy(b[19:], d.name)
		n += rl
		f.dents = f.dents[1:]
		// a listing may be delivered one entry at a time
		if fs.dirSeed%3 == 1 {
			break
		}
	}
	op.N = n
}

func (fs *FS) rename(p *Proc, op *syscall.SimOp) {
	b1, e := fs.base(p, op.Fd)
	if e != 0 {
		op.Err = e
		return
	}
	b2, e := fs.base(p, op.Fd2)
	if e != 0 {
		op.Err = e
		return
	}
	par1, name1, n1, _, e := fs.resolve(b1, op.Path, false)
	if e == 0 && n1 == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		op.Err = e
		return
	}
	par2, name2, n2, _, e := fs.resolve(b2, op.Path2, false)
	if e != 0 {
		op.Err = e
		return
	}
	if n2 != nil && n2.isDir() != n1.isDir() {
		if n2.isDir() {
			op.Err = syscall.EISDIR
		} else {
			op.Err = syscall.ENOTDIR
		}
		return
	}
	if n2 == n1 {
		return
	}
	delete(par1.kids, name1)
	par2.kids[name2] = n1
	fs.meta(func() {
		if par2.kids[name2] == n1 {
			if n2 != nil {
				par2.kids[name2] = n2
			} else {
				delete(par2.kids, name2)
			}
			par1.kids[name1] = n1
		}
	})
}

func (fs *FS) unlink(p *Proc, op *syscall.SimOp) {
	b, e := fs.base(p, op.Fd)
	if e != 0 {
		op.Err = e
		return
	}
	par, name, n, _, e := fs.resolve(b, op.Path, false)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		op.Err = e
		return
	}
	if op.Flags&0x200 != 0 { // AT_REMOVEDIR
		if !n.isDir() {
			op.Err = syscall.ENOTDIR
			return
		}
		if len(n.kids) > 0 {
			op.Err = syscall.ENOTEMPTY
			return
		}
	} else if n.isDir() {
		op.Err = syscall.EISDIR
		return
	}
	delete(par.kids, name)
	n.nlink--
	fs.meta(func() {
		if par.kids[name] == nil {
			par.kids[name] = n
		}
	})
}
