//go:build hooked

package main

import (
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

const hooked = true

// fsCall is one file-system call about to be made.
type fsCall struct {
	Op   string
	A, B string // resolved absolute paths ("" when the call is on a descriptor)
	N    int64  // flags, mode, descriptor
	P    []byte // data of read and write
	Goid uint64
}

func (c fsCall) mutates() bool {
	switch c.Op {
	case "open":
		return c.N&(syscall.O_CREAT|syscall.O_TRUNC|syscall.O_WRONLY|syscall.O_RDWR) != 0
	case "read", "close", "fsync":
		return false
	case "write":
		return c.N > 2
	}
	return true
}

func resolve(dirfd int, p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		base := "/proc/self/cwd"
		if dirfd >= 0 {
			base = "/proc/self/fd/" + strconv.Itoa(dirfd)
		}
		buf := make([]byte, 4096)
		if n, err := syscall.Readlink(base, buf); err == nil {
			p = string(buf[:n]) + "/" + p
		}
	}
	return filepath.Clean(p)
}

// setFS installs f; a non-zero result replaces the call.
func setFS(f func(c fsCall) syscall.Errno) {
	syscall.VerifHook = func(op string, dirfd int, a, b string, n int64, p []byte) syscall.Errno {
		c := fsCall{Op: op, N: n, P: p, Goid: runtime.VerifGoid()}
		switch op {
		case "rename", "link":
			c.A, c.B = resolve(dirfd, a), resolve(int(n), b)
		case "symlink":
			c.A, c.B = a, resolve(dirfd, b)
		default:
			c.A = resolve(dirfd, a)
		}
		return f(c)
	}
}

// rawWrite writes without passing the hook.
func rawWrite(fd int64, p []byte) {
	if len(p) > 0 {
		syscall.RawSyscall(syscall.SYS_WRITE, uintptr(fd), uintptr(unsafe.Pointer(&p[0])), uintptr(len(p)))
	}
}

// setStmt installs f before every statement of the library (nil: none).
func setStmt(f func(site int, entry bool)) { syscall.VerifStmtHook = f }

func goid() uint64 { return runtime.VerifGoid() }

func hookOff() { syscall.VerifHook = nil }

func setClock(f func() time.Time) { time.VerifNow = f }

func mapOrder(on bool, v uint64) { runtime.VerifMapOrder(on, v) }

func realNow() time.Time {
	var tv syscall.Timeval
	_ = syscall.Gettimeofday(&tv)
	return time.Unix(tv.Sec, tv.Usec*1000)
}
