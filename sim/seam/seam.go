// Package seam holds the hooks through which the stubbed terminal modules
// reach the simulator.
package seam

// TTY is the simulated terminal as seen by golang.org/x/term.
type TTY struct {
	IsTerminal func(fd int) bool
	Echo       func(on bool) (old bool)
}

// Screen is the simulated terminal as seen by termbox.
type Screen struct {
	Init      func() error
	Close     func()
	Size      func() (w, h int)
	Flush     func(w, h int, ch []rune, fg, bg []uint64, cx, cy int)
	PollEvent func() Event
	Interrupt func()
}

// Event mirrors termbox.Event.
type Event struct {
	Type   uint8
	Mod    uint8
	Key    uint16
	Ch     rune
	Width  int
	Height int
	Err    error
	MouseX int
	MouseY int
	N      int
}

var (
	T TTY
	S Screen
)
