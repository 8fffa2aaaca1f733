//go:build go1.21 && linux && amd64

package store

import (
	"fmt"
	"os"
	"runtime"
	"syscall"
	"unsafe"
)

// A cond is one test of a system call argument: arg&mask == want.
type cond struct{ arg, mask, want uint32 }

// A fault makes matching system calls fail, or kills the process at them.
type fault struct {
	nr    []uint32
	conds []cond
}

const (
	oCreat  = 0x40
	oAcc    = 0x3
	shared  = 1
	protW   = 2
	retKill = 0x80000000
	retErr  = 0x00050000
	retOK   = 0x7fff0000
)

// the system calls behind every step of writing and loading a cache file
var faults = map[string]fault{
	"create":    {[]uint32{257}, []cond{{2, oCreat, oCreat}}},
	"open":      {[]uint32{257}, []cond{{2, oCreat | oAcc, 0}}},
	"reserve":   {[]uint32{285}, nil},
	"extend":    {[]uint32{77, 285}, nil},
	"map write": {[]uint32{9}, []cond{{3, shared, shared}, {2, protW, protW}}},
	"map read":  {[]uint32{9}, []cond{{3, shared, shared}, {2, protW, 0}}},
	"map":       {[]uint32{9}, []cond{{3, shared, shared}}},
	"rename":    {[]uint32{82, 264, 316}, nil},
	"mkdir":     {[]uint32{83, 258}, nil},
	"stat":      {[]uint32{4, 262}, nil},
	"fstat":     {[]uint32{5}, nil},
	"lock":      {[]uint32{149, 325}, nil},
	"unlink":    {[]uint32{87, 263}, nil},
	"close":     {[]uint32{3}, nil},
	"unmap":     {[]uint32{11}, nil},
}

type sockFilter struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

// install applies the faults to all threads of this process, for good. The process
// has given up new privileges (see reexec), as an unprivileged filter requires.
func install(names []string, ret uint32) error {
	var prog []sockFilter
	prog = append(prog, sockFilter{0x20, 0, 0, 4}, sockFilter{0x15, 1, 0, 0xc000003e}, sockFilter{0x06, 0, 0, retOK})
	for _, n := range names {
		f, ok := faults[n]
		if !ok {
			return fmt.Errorf("no fault %q", n)
		}
		for _, nr := range f.nr {
			left := 3*len(f.conds) + 1
			prog = append(prog, sockFilter{0x20, 0, 0, 0}, sockFilter{0x15, 0, uint8(left), nr})
			for _, c := range f.conds {
				left -= 3
				prog = append(prog, sockFilter{0x20, 0, 0, 16 + 8*c.arg}, sockFilter{0x54, 0, 0, c.mask}, sockFilter{0x15, 0, uint8(left), c.want})
			}
			prog = append(prog, sockFilter{0x06, 0, 0, ret})
		}
	}
	prog = append(prog, sockFilter{0x06, 0, 0, retOK})
	fp := struct {
		n uint16
		p *sockFilter
	}{uint16(len(prog)), &prog[0]}
	if _, _, e := syscall.RawSyscall(317, 1, 1, uintptr(unsafe.Pointer(&fp))); e != 0 {
		return e
	}
	return nil
}

// reexec starts the program again with no_new_privs set, which then holds for all
// its threads.
func reexec() {
	if os.Getenv("VH_NNP") != "" {
		return
	}
	runtime.LockOSThread()
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		os.Exit(91)
	}
	os.Setenv("VH_NNP", "1")
	self, err := os.Executable()
	if err != nil {
		os.Exit(91)
	}
	syscall.Exec(self, os.Args, os.Environ())
	os.Exit(91)
}
