package main

// For replays, package os is compiled with a counter in front of the file
// operations that the model in vos counts, so that the same operation of the
// real program can be made to fail or to be its last.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const faultHook = `package os

import "syscall"

var verifKill, verifFail, verifTorn, verifOps int
var verifLog = -1
var verifReady bool

func verifInt(k string) int {
	v, _ := syscall.Getenv(k)
	n := 0
	for i := 0; i < len(v); i++ {
		n = n*10 + int(v[i]-'0')
	}
	return n
}

// verifEvent counts an operation and reports whether it has to fail.
func verifEvent(what string, torn func(n int)) bool {
	if !verifReady {
		verifReady = true
		verifKill, verifFail, verifTorn = verifInt("VERIF_KILL"), verifInt("VERIF_FAIL"), verifInt("VERIF_TORN")
		if f, ok := syscall.Getenv("VERIF_OPS"); ok && f != "" {
			verifLog, _ = syscall.Open(f, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_APPEND, 0600)
		}
	}
	verifOps++
	if verifLog >= 0 {
		syscall.Write(verifLog, []byte(what+"\n"))
	}
	if verifOps == verifKill {
		if torn != nil && verifTorn > 0 {
			torn(verifTorn)
		}
		syscall.Exit(137)
	}
	return verifOps == verifFail
}

func verifError(op, name string) error {
	return &PathError{Op: op, Path: name, Err: syscall.EIO}
}

func verifOpen(name string, flag int) bool {
	var st syscall.Stat_t
	if syscall.Stat(name, &st) != nil {
		if flag&O_CREATE == 0 {
			return false
		}
		return verifEvent("create "+name, nil)
	}
	if flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL || flag&O_TRUNC == 0 {
		return false
	}
	return verifEvent("truncate "+name, nil)
}
`

func faultOverlay(scratch string) (string, error) {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", err
	}
	dir := filepath.Join(strings.TrimSpace(string(out)), "src", "os")
	rep := map[string]string{}
	put := func(name, text string) error {
		f := filepath.Join(scratch, "os_"+name)
		rep[filepath.Join(dir, name)] = f
		return os.WriteFile(f, []byte(text), 0600)
	}
	edits := map[string][][2]string{
		"file.go": {
			{"func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n", "\tif verifOpen(name, flag) {\n\t\treturn nil, verifError(\"open\", name)\n\t}\n"},
			{"func Rename(oldpath, newpath string) error {\n", "\tvar st syscall.Stat_t\n\tif syscall.Lstat(oldpath, &st) == nil && verifEvent(\"rename \"+oldpath+\" \"+newpath, nil) {\n\t\treturn verifError(\"rename\", oldpath)\n\t}\n"},
			{"func (f *File) Write(b []byte) (n int, err error) {\n", "\tif f != nil && f != Stdout && f != Stderr && verifEvent(\"write \"+f.name, func(n int) { f.write(b[:min(n, len(b))]) }) {\n\t\treturn 0, verifError(\"write\", f.name)\n\t}\n"},
			{"func (f *File) ReadFrom(r io.Reader) (n int64, err error) {\n", "\tif f != nil {\n\t\treturn genericReadFrom(f, r)\n\t}\n"},
		},
		"file_unix.go": {
			{"func Remove(name string) error {\n", "\tvar st syscall.Stat_t\n\tif syscall.Lstat(name, &st) == nil && verifEvent(\"remove \"+name, nil) {\n\t\treturn verifError(\"remove\", name)\n\t}\n"},
		},
	}
	for name, es := range edits {
		b, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil {
			return "", err
		}
		s := string(b)
		for _, e := range es {
			if !strings.Contains(s, e[0]) {
				return "", fmt.Errorf("%s: no %q", name, e[0])
			}
			s = strings.Replace(s, e[0], e[0]+e[1], 1)
		}
		if err := put(name, s); err != nil {
			return "", err
		}
	}
	if err := put("verif_hook.go", faultHook); err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	f := filepath.Join(scratch, "os_overlay.json")
	return f, os.WriteFile(f, b, 0600)
}
