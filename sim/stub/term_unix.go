//go:build linux
// +build linux

// Replaces the operating-system half of golang.org/x/term in the simulation
// build: the line discipline is the simulator's, the rest of the module is
// the real code.
package term

import (
	"syscall"

	"verif.local/seam"
)

type state struct{ echo bool }

func isTerminal(fd int) bool { return seam.T.IsTerminal(fd) }

func makeRaw(fd int) (*State, error) {
	if !isTerminal(fd) {
		return nil, syscall.ENOTTY
	}
	old := seam.T.Echo(false)
	return &State{state{old}}, nil
}

func getState(fd int) (*State, error) {
	if !isTerminal(fd) {
		return nil, syscall.ENOTTY
	}
	old := seam.T.Echo(false)
	seam.T.Echo(old)
	return &State{state{old}}, nil
}

func restore(fd int, st *State) error {
	if !isTerminal(fd) {
		return syscall.ENOTTY
	}
	seam.T.Echo(st.echo)
	return nil
}

func getSize(fd int) (width, height int, err error) {
	if !isTerminal(fd) {
		return -1, -1, syscall.ENOTTY
	}
	return 80, 24, nil
}

type passwordReader int

func (r passwordReader) Read(buf []byte) (int, error) { return syscall.Read(int(r), buf) }

func readPassword(fd int) ([]byte, error) {
	if !isTerminal(fd) {
		return nil, syscall.ENOTTY
	}
	old := seam.T.Echo(false)
	defer seam.T.Echo(old)
	return readPasswordLine(passwordReader(fd))
}
