// Package vsym is how harnesses declare inputs and state properties. The
// symbolic engine gives these functions their symbolic meaning; the bodies
// below are what runs when a counterexample is replayed against the real code.
package vsym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	vals  map[string]uint64
	count = map[string]int{}
	tmp   string
)

func load() {
	if vals != nil {
		return
	}
	vals = map[string]uint64{}
	f := os.Getenv("VERIF_REPLAY")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	var r struct {
		Values map[string]uint64
	}
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	vals = r.Values
}

func get(name string) uint64 {
	load()
	k := fmt.Sprintf("%s#%d", name, count[name])
	count[name]++
	return vals[k]
}

// Byte, Bool, ... declare an unconstrained input.
func Byte(name string) byte     { return byte(get(name)) }
func Bool(name string) bool     { return get(name) != 0 }
func Uint16(name string) uint16 { return uint16(get(name)) }
func Uint32(name string) uint32 { return uint32(get(name)) }
func Uint64(name string) uint64 { return get(name) }

// Int declares an input in [lo, hi].
func Int(name string, lo, hi int) int {
	load()
	k := fmt.Sprintf("%s#%d", name, count[name])
	count[name]++
	if v, ok := vals[k]; ok {
		return int(v)
	}
	return lo
}

// Choice declares an input in [0, n) and explores its values one by one.
func Choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return Int(name, 0, n-1)
}

// Bytes declares n unconstrained bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name)
	}
	return b
}

func String(name string, n int) string { return string(Bytes(name, n)) }

// Concrete explores the values of x one by one.
func Concrete(x int) int             { return x }
func ConcreteByte(x byte) byte       { return x }
func ConcreteString(x string) string { return x }

// Pin continues with one value of x only; what follows it covers no others.
func Pin(x byte) byte { return x }

func IsSymbolic(x int) bool    { return false }
func InEngine() bool           { return false }
func Thorough() bool           { return os.Getenv("VERIF_TIER") == "thorough" }
func Seed() int                { var n int; fmt.Sscan(os.Getenv("VERIF_SEED"), &n); return n }
func And(a, b bool) bool       { return a && b }
func Or(a, b bool) bool        { return a || b }
func Not(a bool) bool          { return !a }
func Implies(a, b bool) bool   { return !a || b }
func Iff(a, b bool) bool       { return a == b }
func EqStr(a, b string) bool   { return a == b }
func LessStr(a, b string) bool { return a < b }
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
func Cover(name string)        {}
func Thread(id int)            {}
func Races() string            { return "" }

// Held is the number of files this program holds open or mapped.
func Held() int {
	debug.SetGCPercent(-1) // or what was forgotten is closed at some time
	n := 0
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, e := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(to, TempDir()+"/") {
			n++
		}
	}
	maps, _ := os.ReadFile("/proc/self/maps")
	return n + strings.Count(string(maps), " "+TempDir()+"/")
}

// Go runs f and g at the same time, several times.
func Go(f, g func()) {
	// what they share shows only where they overlap
	end := time.Now().Add(3 * time.Second)
	for i := 0; i < 8 || i < 400 && time.Now().Before(end); i++ {
		var wg sync.WaitGroup
		start := make(chan bool)
		for _, h := range []func(){f, g} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for range 1 + i%8 {
					h()
				}
			}()
		}
		close(start)
		wg.Wait()
	}
}
func Note(s string) { fmt.Println("note:", s) }
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteBool(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}
func IteUint32(c bool, a, b uint32) uint32 {
	if c {
		return a
	}
	return b
}

// Observe records a value that the encoding and the real code must agree on.
func Observe(s string) { fmt.Printf("OBS %q\n", s) }

// Known reports whether the known-findings file lists this finding.
func Known(key string) bool {
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k == key {
			return true
		}
	}
	return false
}

// Pick returns one of two parameters depending on the tier.
func Pick(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Assume restricts attention to inputs satisfying b.
func Assume(b bool) {
	if !b {
		fmt.Println("VERIF-ASSUME")
		os.Exit(4)
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		Fail(msg)
	}
}

func Fail(msg string) {
	fmt.Println("VERIF-FAIL: " + msg)
	os.Exit(3)
}

// Try runs f: 0 normal return, 1 panic, 2 process exit.
func Try(f func()) (code int) {
	defer func() {
		if e := recover(); e != nil {
			fmt.Println("note: caught", e)
			code = 1
		}
	}()
	f()
	return 0
}

// TempDir returns a scratch directory.
func TempDir() string {
	if tmp == "" {
		base := os.Getenv("VERIF_SCRATCH")
		if base == "" {
			base = os.TempDir()
		}
		d, err := os.MkdirTemp(base, "verif")
		if err != nil {
			panic(err)
		}
		tmp, _ = filepath.EvalSymlinks(d)
	}
	return tmp
}

// A Proc is a run of one of the commands.
type Proc struct {
	Name   string
	Args   []string
	Stdin  string
	Env    []string // KEY=value
	Dir    string
	Code   int
	Stdout string
	Stderr string

	// Faults. An operation creates, truncates, writes, removes or renames a file.
	Kill int // the process dies instead of this operation (1 is the first, 0 is none)
	Torn int // if that is a write, this many bytes still reach the file
	Fail int // this operation fails
	Ops  int // the number of operations that were reached

	User bool // file permissions apply, as they always do in the model

	Files int // at most so many files may be open at a time (0 is no limit)
}

// stamps are the times in messages of package log.
var stamps = regexp.MustCompile(`\d{4}/\d\d/\d\d \d\d:\d\d:\d\d `)

// Run executes the command.
func Run(p *Proc) {
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), p.Name), p.Args...)
	if p.Files > 0 {
		cmd = exec.Command("/bin/sh", append([]string{"-c", fmt.Sprintf(`ulimit -n %d && exec "$0" "$@"`, p.Files), cmd.Path}, p.Args...)...)
	}
	cmd.Stdin = strings.NewReader(p.Stdin)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	cmd.Dir = p.Dir
	cmd.Env = append(os.Environ(), p.Env...)
	ops := filepath.Join(TempDir(), ".ops")
	os.Remove(ops)
	cmd.Env = append(cmd.Env, fmt.Sprintf("VERIF_KILL=%d", p.Kill), fmt.Sprintf("VERIF_TORN=%d", p.Torn), fmt.Sprintf("VERIF_FAIL=%d", p.Fail), "VERIF_OPS="+ops)
	if p.Files > 0 {
		// closing what was forgotten is not left to chance
		cmd.Env = append(cmd.Env, "GOGC=off")
	}
	if p.User && os.Getuid() == 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Cloneflags: syscall.CLONE_NEWUSER, UidMappings: []syscall.SysProcIDMap{{ContainerID: 1000, HostID: 0, Size: 1}}}
	}
	err := cmd.Run()
	log, _ := os.ReadFile(ops)
	os.Remove(ops)
	p.Ops = bytes.Count(log, []byte("\n"))
	p.Stdout, p.Stderr = out.String(), stamps.ReplaceAllString(errb.String(), "")
	p.Code = 0
	if err != nil {
		p.Code = 255
		if e, ok := err.(*exec.ExitError); ok {
			p.Code = e.ExitCode()
		}
	}
	if os.Getenv("VERIF_TRACE") != "" {
		fmt.Printf("note: %s %q -> %d %q %q\n%s", p.Name, p.Args, p.Code, p.Stdout, p.Stderr, log)
	}
}

// RunChunks is Run with standard input delivered in the given pieces.
func RunChunks(p *Proc, sizes []int) {
	Run(p)
}
