//go:build go1.27

package kit

import (
	"errors"
	"runtime"
	"strings"
	"time"

	"verif.local/seam"
)

// ScreenModel is the simulated full-screen terminal.
type ScreenModel struct {
	w, h   int
	ev     chan seam.Event
	ch     []rune
	fg, bg []uint64
	fw, fh int
	cx, cy int
	frames int
	opened bool
	closed bool
	fail   bool
	onDraw func(s *ScreenModel)
}

func newScreen(w, h int) *ScreenModel {
	return &ScreenModel{w: w, h: h, ev: make(chan seam.Event, 256)}
}

func installTerm() {
	seam.T.IsTerminal = func(fd int) bool {
		if !simActive() {
			return false
		}
		return cur.me().inTTY && fd >= 0 && fd <= 2
	}
	seam.T.Echo = func(on bool) bool {
		p := cur.me()
		old := !p.noEcho
		p.noEcho = !on
		return old
	}
	seam.S.Init = func() error {
		p := cur.me()
		if p.gone() {
			p.die()
		}
		if p.gui == nil || p.gui.fail {
			return errors.New("open /dev/tty: no such device or address")
		}
		p.gui.opened = true
		return nil
	}
	seam.S.Close = func() {
		if p := cur.me(); p.gui != nil {
			p.gui.closed = true
		}
	}
	seam.S.Size = func() (int, int) {
		p := cur.me()
		if p.gone() {
			p.die()
			return 80, 24
		}
		return p.gui.w, p.gui.h
	}
	seam.S.Flush = func(w, h int, ch []rune, fg, bg []uint64, cx, cy int) {
		p := cur.me()
		if p.gone() {
			p.die()
			return
		}
		s := p.gui
		s.fw, s.fh, s.ch, s.fg, s.bg, s.cx, s.cy = w, h, ch, fg, bg, cx, cy
		s.frames++
		h64 := uint64(14695981039346656037)
		for _, r := range ch {
			h64 ^= uint64(r)
			h64 *= 1099511628211
		}
		p.w.note("flush", hex64(h64))
		if s.onDraw != nil {
			s.onDraw(s)
		}
	}
	seam.S.PollEvent = func() seam.Event {
		p := cur.me()
		if p.gone() {
			p.die()
			runtime.Goexit()
		}
		select {
		case e := <-p.gui.ev:
			p.w.tick()
			return e
		case <-p.dead:
			p.die()
			runtime.Goexit()
		}
		return seam.Event{}
	}
	seam.S.Interrupt = func() {}
}

func (s *ScreenModel) row(y int) string {
	var sb strings.Builder
	for x := 0; x < s.fw; x++ {
		r := s.ch[y*s.fw+x]
		if r == 0 {
			continue
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

func (s *ScreenModel) text() string {
	var sb strings.Builder
	for y := 0; y < s.fh; y++ {
		sb.WriteString(s.row(y))
		sb.WriteByte('\n')
	}
	return sb.String()
}

// region returns the text lines of a rectangle (inclusive bounds).
func (s *ScreenModel) region(x0, y0, x1, y1 int) []string {
	var out []string
	for y := y0; y <= y1; y++ {
		if y < 0 || y >= s.fh {
			continue
		}
		var sb strings.Builder
		for x := x0; x <= x1; x++ {
			if x < 0 || x >= s.fw {
				continue
			}
			if r := s.ch[y*s.fw+x]; r != 0 {
				sb.WriteRune(r)
			}
		}
		out = append(out, sb.String())
	}
	return out
}

func (p *Proc) pause(d time.Duration) {
	select {
	case <-time.After(d):
	case <-p.dead:
	}
}
