package main

import (
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"syscall"
)

// Cases that let the library write to a real disk run with the file system
// identity of an unprivileged user, so that a name that escapes from the
// scratch directory (which is all the user owns) reaches nothing real.

const nobody = 65534

var containOnce sync.Once
var containable bool

func setfs(id int) {
	if id == 0 {
		syscall.Setfsuid(0)
		syscall.Setfsgid(0)
		return
	}
	syscall.Setfsgid(id)
	syscall.Setfsuid(id)
}

// asNobody makes this goroutine's thread access files as nobody, until the
// function returned is called. root is a directory that nobody may pass but
// not write to.
func asNobody(root string) func() {
	if os.Getuid() != 0 {
		return func() {}
	}
	containOnce.Do(func() {
		os.Chmod(root, 0o711)
		runtime.LockOSThread()
		setfs(nobody)
		f, err := os.Create(filepath.Join(root, "probe"))
		setfs(0)
		runtime.UnlockOSThread()
		containable = err != nil
		if err == nil {
			f.Close()
			os.Remove(filepath.Join(root, "probe"))
		}
	})
	if !containable {
		return func() {}
	}
	runtime.LockOSThread()
	setfs(nobody)
	return func() {
		setfs(0)
		runtime.UnlockOSThread()
	}
}

// contained tells whether escaped names reach nothing real.
func contained() bool { return os.Getuid() != 0 || containable }
