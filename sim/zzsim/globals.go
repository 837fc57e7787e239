package zzsim

import (
	"debug/elf"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"unsafe"
)

// Simulated processes share one real process, but not the repository's package
// variables: each gets a pristine image of them (initialisers run anew), and
// the images are exchanged whenever the scheduler turns to another process.

type region struct{ addr, size uintptr }

var (
	regions  []region
	pristine []byte
	initIdx  []int
	curProc  *Proc
	// Reinit is set while package initialisers run again.
	Reinit bool
)

const repoPrefix = "github.com/g-rath/osv-detector/"

func initGlobals() error {
	f, err := elf.Open("/proc/self/exe")
	if err != nil {
		return err
	}
	defer f.Close()
	syms, err := f.Symbols()
	if err != nil {
		return err
	}
	okSec := map[int]bool{}
	for i, s := range f.Sections {
		switch s.Name {
		case ".data", ".bss", ".noptrdata", ".noptrbss":
			okSec[i] = true
		}
	}
	probe := false
	for _, s := range syms {
		if !okSec[int(s.Section)] || s.Size == 0 {
			continue
		}
		if s.Name == repoPrefix+"internal/zzsim.Reinit" {
			probe = uintptr(s.Value) == uintptr(unsafe.Pointer(&Reinit))
		}
		if strings.HasPrefix(s.Name, repoPrefix+"internal/zzsim.") || strings.HasSuffix(s.Name, "..inittask") {
			continue
		}
		if strings.HasPrefix(s.Name, "main.") || strings.HasPrefix(s.Name, repoPrefix) {
			regions = append(regions, region{uintptr(s.Value), uintptr(s.Size)})
		}
	}
	if !probe {
		return fmt.Errorf("symbol addresses do not match this process")
	}
	sort.Slice(regions, func(i, j int) bool { return regions[i].addr < regions[j].addr })
	pristine = saveGlobals(nil)
	for i, pkg := range runtime.SimInitPkgs() {
		if (pkg == "main" || strings.HasPrefix(pkg+"/", repoPrefix)) && !strings.HasSuffix(pkg, "/zzsim") {
			initIdx = append(initIdx, i)
		}
	}
	return nil
}

func saveGlobals(b []byte) []byte {
	b = b[:0]
	for _, r := range regions {
		b = append(b, unsafe.Slice((*byte)(unsafe.Pointer(r.addr)), r.size)...)
	}
	return b
}

func loadGlobals(b []byte) {
	for _, r := range regions {
		copy(unsafe.Slice((*byte)(unsafe.Pointer(r.addr)), r.size), b)
		b = b[r.size:]
	}
}

// globalsFor exchanges the package variables of old for those of p.
func globalsFor(old, p *Proc) {
	if old != nil {
		old.image = saveGlobals(old.image)
	}
	if p.image == nil {
		loadGlobals(pristine)
		Reinit = true
		for _, i := range initIdx {
			runtime.SimRunInit(i)
		}
		Reinit = false
		p.image = make([]byte, 0, len(pristine))
	} else {
		loadGlobals(p.image)
	}
}

func resetGlobals() { loadGlobals(pristine) }
