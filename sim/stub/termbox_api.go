// Replaces the operating-system half of github.com/nsf/termbox-go in the
// simulation build: cell buffer and flush semantics are the real ones, the
// terminal itself is the simulator's.
package termbox

import (
	"errors"

	"github.com/mattn/go-runewidth"
	"verif.local/seam"
)

var (
	back_buffer  cellbuf
	front_buffer cellbuf
	termw, termh int
	cursor_x     = cursor_hidden
	cursor_y     = cursor_hidden
	foreground   = ColorDefault
	background   = ColorDefault
	input_mode   = InputEsc
	output_mode  = OutputNormal
)

func Init() error {
	if IsInit {
		return nil
	}
	if err := seam.S.Init(); err != nil {
		return err
	}
	termw, termh = seam.S.Size()
	back_buffer.init(termw, termh)
	front_buffer.init(termw, termh)
	back_buffer.clear()
	front_buffer.clear()
	IsInit = true
	return nil
}

func Interrupt() { seam.S.Interrupt() }

func Close() {
	if !IsInit {
		return
	}
	seam.S.Close()
	termw, termh = 0, 0
	input_mode = InputEsc
	cursor_x, cursor_y = cursor_hidden, cursor_hidden
	foreground, background = ColorDefault, ColorDefault
	IsInit = false
}

func update_size_maybe() error {
	w, h := seam.S.Size()
	if w != termw || h != termh {
		termw, termh = w, h
		back_buffer.resize(termw, termh)
		front_buffer.resize(termw, termh)
		front_buffer.clear()
	}
	return nil
}

func Flush() error {
	update_size_maybe()
	for y := 0; y < front_buffer.height; y++ {
		off := y * front_buffer.width
		for x := 0; x < front_buffer.width; {
			back := &back_buffer.cells[off+x]
			front := &front_buffer.cells[off+x]
			if back.Ch < ' ' {
				back.Ch = ' '
			}
			w := runewidth.RuneWidth(back.Ch)
			if w == 0 || w == 2 && runewidth.IsAmbiguousWidth(back.Ch) {
				w = 1
			}
			*front = *back
			if w == 2 {
				if x == front_buffer.width-1 {
					front.Ch = ' '
				} else {
					front_buffer.cells[off+x+1] = Cell{Ch: 0, Fg: back.Fg, Bg: back.Bg}
				}
			}
			x += w
		}
	}
	n := front_buffer.width * front_buffer.height
	ch, fg, bg := make([]rune, n), make([]uint64, n), make([]uint64, n)
	for i, c := range front_buffer.cells[:n] {
		ch[i], fg[i], bg[i] = c.Ch, uint64(c.Fg), uint64(c.Bg)
	}
	seam.S.Flush(front_buffer.width, front_buffer.height, ch, fg, bg, cursor_x, cursor_y)
	return nil
}

func SetCursor(x, y int) { cursor_x, cursor_y = x, y }

func HideCursor() { SetCursor(cursor_hidden, cursor_hidden) }

func in(x, y int) bool {
	return x >= 0 && x < back_buffer.width && y >= 0 && y < back_buffer.height
}

func SetCell(x, y int, ch rune, fg, bg Attribute) {
	if in(x, y) {
		back_buffer.cells[y*back_buffer.width+x] = Cell{ch, fg, bg}
	}
}

func GetCell(x, y int) Cell { return back_buffer.cells[y*back_buffer.width+x] }

func SetChar(x, y int, ch rune) {
	if in(x, y) {
		back_buffer.cells[y*back_buffer.width+x].Ch = ch
	}
}

func SetFg(x, y int, fg Attribute) {
	if in(x, y) {
		back_buffer.cells[y*back_buffer.width+x].Fg = fg
	}
}

func SetBg(x, y int, bg Attribute) {
	if in(x, y) {
		back_buffer.cells[y*back_buffer.width+x].Bg = bg
	}
}

func CellBuffer() []Cell { return back_buffer.cells }

func ParseEvent(data []byte) Event { return Event{Type: EventNone} }

func PollRawEvent(data []byte) Event {
	return Event{Type: EventError, Err: errors.New("raw events are not simulated")}
}

func PollEvent() Event {
	e := seam.S.PollEvent()
	return Event{Type: EventType(e.Type), Mod: Modifier(e.Mod), Key: Key(e.Key), Ch: e.Ch, Width: e.Width, Height: e.Height,
		Err: e.Err, MouseX: e.MouseX, MouseY: e.MouseY, N: e.N}
}

func Size() (width int, height int) { return termw, termh }

func Clear(fg, bg Attribute) error {
	foreground, background = fg, bg
	err := update_size_maybe()
	back_buffer.clear()
	return err
}

func SetInputMode(mode InputMode) InputMode {
	if mode == InputCurrent {
		return input_mode
	}
	if mode&(InputEsc|InputAlt) == 0 {
		mode |= InputEsc
	}
	if mode&(InputEsc|InputAlt) == InputEsc|InputAlt {
		mode &^= InputAlt
	}
	input_mode = mode
	return input_mode
}

func SetOutputMode(mode OutputMode) OutputMode {
	if mode == OutputCurrent {
		return output_mode
	}
	output_mode = mode
	return output_mode
}

func Sync() error { return Flush() }
