//go:build !hooked

package main

import (
	"syscall"
	"time"
)

const hooked = false

type fsCall struct {
	Op   string
	A, B string
	N    int64
	P    []byte
	Goid uint64
}

func (c fsCall) mutates() bool             { return false }
func setFS(f func(c fsCall) syscall.Errno) { panic(harnessError{"not hooked"}) }
func rawWrite(fd int64, p []byte)          {}
func setStmt(f func(site int, entry bool)) {}
func goid() uint64                         { return 0 }
func hookOff()                             {}
func setClock(f func() time.Time)          {}
func mapOrder(on bool, v uint64)           {}
func realNow() time.Time                   { return time.Now() }
