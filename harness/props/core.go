// Package props states the properties as executable checks.
package props

import (
	"crypto/sha256"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"verifharness/gen"
	"verifharness/pbt"
)

// Prop is a property.
type Prop struct {
	ID string
	// Rule says what makes a case non-trivial
	Rule string
	// Run generates a case and checks it
	Run func(*C)
	// Quick and Thorough are numbers of cases
	Quick, Thorough int
	// Known checks the findings that are recorded for this property. It
	// returns a description for each that still is there.
	Known func() []Finding
	// Fixed are inputs that are always checked first
	Fixed int
	// NeedGoroutines: count them around every case
	Leaks bool
	// Files: count open files, pipes and connections around every case
	Files bool
	// Slow cases are given more time
	Slow bool
}

// Finding is a known defect of the code under test.
type Finding struct {
	ID    string // in the file of known findings
	What  string
	Still bool // still there
}

// All lists the properties.
var All = map[string]*Prop{}

func register(p *Prop) { All[p.ID] = p }

// C is a case.
type C struct {
	*gen.G
	nontrivial bool
	sample     string
	key        string
	classes    []string
	dirs       []string
	details    []string
	cleanup    []func()
	// CaseNo counts the cases of the shard
	CaseNo int
	Env    *Env
}

// Env is what the driver tells the checks.
type Env struct {
	Bin      string // directory with the command line tools
	Scratch  string // directory to put files in
	Race     bool
	Thorough bool
}

// Failure is a violation of the property.
type Failure struct{ Msg string }

// Failf reports a violation.
func (c *C) Failf(f string, a ...interface{}) {
	panic(Failure{fmt.Sprintf(f, a...)})
}

// NonTrivial marks the case, and says what it was.
func (c *C) NonTrivial(sample string) {
	c.nontrivial = true
	if c.sample == "" {
		c.sample = sample
	}
	c.key += "\x00" + sample
}

// Class counts the case as one of a class.
func (c *C) Class(s string) { c.classes = append(c.classes, s) }

// Note remembers something to be reported along with a failure.
func (c *C) Note(what, text string) { c.details = append(c.details, what+":\n"+indent(text)) }

func indent(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }

// Dir returns a new directory that is removed after the case.
func (c *C) Dir() string {
	d, err := os.MkdirTemp(c.Env.Scratch, "case")
	if err != nil {
		panic(err)
	}
	c.dirs = append(c.dirs, d)
	return d
}

// Chdir changes the working directory until the case is done.
func (c *C) Chdir(dir string) {
	old, err := os.Getwd()
	if err == nil {
		err = os.Chdir(dir)
	}
	if err != nil {
		panic(err)
	}
	c.Cleanup(func() {
		if err := os.Chdir(old); err != nil {
			panic(err)
		}
	})
}

// File writes a file.
func (c *C) File(dir, name, text string) string {
	fn := filepath.Join(dir, name)
	if err := os.WriteFile(fn, []byte(text), 0644); err != nil {
		panic(err)
	}
	return fn
}

// Cleanup is called after the case.
func (c *C) Cleanup(f func()) { c.cleanup = append(c.cleanup, f) }

// Outcome is the result of a case.
type Outcome struct {
	Failed     bool
	Msg        string
	Details    []string
	NonTrivial bool
	Sample     string
	Key        [8]byte
	Classes    []string
	Choices    []uint32
	Spans      [][2]int
}

// RunCase runs a single case.
func RunCase(p *Prop, t *pbt.T, env *Env, index int) (o Outcome) {
	c := &C{G: gen.New(t), Env: env, CaseNo: index}
	base, files := 0, ""
	if p.Leaks {
		base = runtime.NumGoroutine()
	}
	if p.Files {
		warmUp.Do(openEverything)
		files = openFiles()
	}
	defer func() {
		if r := recover(); r != nil {
			o.Failed = true
			if f, ok := r.(Failure); ok {
				o.Msg = f.Msg
			} else {
				buf := make([]byte, 16<<10)
				o.Msg = fmt.Sprintf("panic: %v\n%s", r, buf[:runtime.Stack(buf, false)])
			}
		}
		for i := len(c.cleanup) - 1; i >= 0; i-- {
			c.cleanup[i]()
		}
		for _, d := range c.dirs {
			os.RemoveAll(d)
		}
		o.Details = c.details
		o.NonTrivial, o.Sample, o.Classes = c.nontrivial, c.sample, c.classes
		h := sha256.Sum256([]byte(c.key))
		copy(o.Key[:], h[:])
		o.Choices, o.Spans = t.Choices(), t.Spans()
		if p.Leaks && !o.Failed {
			deadline := time.Now().Add(10 * time.Second)
			for n := 0; runtime.NumGoroutine() > base; n++ {
				if n < 100 {
					runtime.Gosched()
				} else {
					time.Sleep(time.Millisecond)
				}
				if time.Now().After(deadline) {
					buf := make([]byte, 64<<10)
					o.Failed = true
					o.Msg = fmt.Sprintf("goroutines are left behind: %d before, %d after\n%s", base, runtime.NumGoroutine(), buf[:runtime.Stack(buf, true)])
					break
				}
			}
		}
		if p.Files && !o.Failed {
			// not too often: the garbage collector closes files, too
			for d := time.Millisecond; ; d *= 2 {
				now := openFiles()
				if strings.Count(now, "\n") <= strings.Count(files, "\n") {
					break
				}
				if d > 2*time.Second {
					o.Failed = true
					o.Msg = "something is left open; before:\n" + files + "after:\n" + now
					break
				}
				time.Sleep(d)
			}
		}
	}()
	p.Run(c)
	return
}

// Clip shortens a text.
func Clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

var warmUp sync.Once

// openEverything makes the runtime open what it keeps for itself.
func openEverything() {
	if r, w, err := os.Pipe(); err == nil {
		r.SetDeadline(time.Now().Add(-1))
		r.Read(make([]byte, 1))
		r.Close()
		w.Close()
	}
	if l, err := net.Listen("tcp", "127.0.0.1:0"); err == nil {
		if c, err := net.Dial("tcp", l.Addr().String()); err == nil {
			c.Close()
		}
		l.Close()
	}
	exec.Command("true").Run()
}

// openFiles lists what is open, one per line.
func openFiles() string {
	const dir = "/proc/self/fd"
	l, err := os.ReadDir(dir)
	if err != nil {
		return ""
	}
	s := ""
	for _, e := range l {
		if n, err := os.Readlink(dir + "/" + e.Name()); err == nil {
			s += e.Name() + " " + n + "\n"
		}
	}
	return s
}
