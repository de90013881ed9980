//go:build go1.27

package kit

import (
	"debug/elf"
	"net/http"
	"os"
	"runtime"
	"strings"
	"unsafe"
)

// Every simulated process starts with the package-level variables a freshly
// started program has: their bytes are put back to the image in the
// executable and the package initialisers run again.

type region struct {
	addr uintptr
	init []byte // nil: zero
	size int
}

var (
	resetRegions []region
	resetInits   []uintptr
	freshTrans   *http.Transport
)

func resettable(name string) bool {
	for _, p := range []string{"github.com/mashmb/", "main.", "github.com/spf13/", "github.com/jroimartin/gocui", "github.com/nsf/termbox-go"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func loadGlobals() {
	f, err := elf.Open("/proc/self/exe")
	if err != nil {
		panic(err)
	}
	defer f.Close()
	syms, err := f.Symbols()
	if err != nil {
		panic(err)
	}
	type secd struct {
		s *elf.Section
		d []byte
	}
	secs := map[elf.SectionIndex]secd{}
	for i, s := range f.Sections {
		switch s.Name {
		case ".data", ".noptrdata":
			d, err := s.Data()
			if err != nil {
				panic(err)
			}
			secs[elf.SectionIndex(i)] = secd{s, d}
		case ".bss", ".noptrbss":
			secs[elf.SectionIndex(i)] = secd{s, nil}
		}
	}
	isInit := map[uintptr]bool{}
	for _, s := range syms {
		if s.Size == 0 || !resettable(s.Name) {
			continue
		}
		sd, ok := secs[s.Section]
		if !ok {
			continue
		}
		r := region{addr: uintptr(s.Value), size: int(s.Size)}
		if sd.d != nil {
			o := s.Value - sd.s.Addr
			r.init = append([]byte(nil), sd.d[o:o+s.Size]...)
		}
		if strings.HasSuffix(s.Name, "..inittask") {
			isInit[r.addr] = true
		}
		resetRegions = append(resetRegions, r)
	}
	for _, a := range runtime.VerifInitTasks() {
		if isInit[a] {
			resetInits = append(resetInits, a)
		}
	}
	freshTrans = http.DefaultTransport.(*http.Transport).Clone()
	if os.Getenv("VERIF_DEBUG") != "" {
		println("reset regions", len(resetRegions), "inits", len(resetInits))
	}
}

// restoreGlobals puts the image back; reinit (inside the process) runs the
// initialisers.
func restoreGlobals() {
	for _, r := range resetRegions {
		b := unsafe.Slice((*byte)(unsafe.Pointer(r.addr)), r.size)
		if r.init == nil {
			clear(b)
		} else {
			copy(b, r.init)
		}
	}
	http.DefaultTransport = freshTrans.Clone()
	http.DefaultClient = &http.Client{}
}

func reinit() {
	for _, a := range resetInits {
		runtime.VerifRunInit(a)
	}
}
