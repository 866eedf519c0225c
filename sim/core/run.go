package core

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
)

// LibraryPanic reports whether the panic whose stack is given (taken while
// recovering) was raised by the library or by code it called, rather than by
// the simulator.
func LibraryPanic(stack string) bool {
	_, lib := panicFrame(stack)
	return lib
}

// PanicSite names the place.
func PanicSite(stack string) string {
	f, _ := panicFrame(stack)
	return f
}

func panicFrame(stack string) (string, bool) {
	i := strings.LastIndex(stack, "\npanic(")
	if i < 0 {
		return "", false
	}
	lines := strings.Split(stack[i+1:], "\n")
	first := ""
	for k := 2; k+1 < len(lines); k += 2 {
		fn := lines[k]
		if strings.HasPrefix(fn, "runtime.") || strings.HasPrefix(fn, "panic(") {
			continue
		}
		pos := strings.TrimSpace(lines[k+1])
		if j := strings.IndexByte(pos, ' '); j > 0 {
			pos = pos[:j]
		}
		if first == "" {
			if p := strings.IndexByte(fn, '('); p > 0 && !strings.HasPrefix(fn, "github.com/codeallergy/value.(") {
				fn = fn[:p]
			}
			first = fn + " " + trimPos(pos)
		}
		switch {
		case strings.Contains(lines[k], "github.com/codeallergy/value"):
			return first, true
		case strings.HasPrefix(lines[k], "verifsim/simsync"), strings.HasPrefix(lines[k], "verifsim/simhook"):
			continue
		case strings.HasPrefix(lines[k], "verifsim"):
			return first, false
		}
	}
	return first, false
}

// trimPos drops directories, and the prefix of instrumented copies.
func trimPos(p string) string {
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		p = p[i+1:]
	}
	return p
}

// RaceReport summarises what the race detector has written so far.
func RaceReport() string {
	path := os.Getenv("VS_RACELOG")
	if path == "" {
		return "(no log)"
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", path, os.Getpid()))
	if err != nil {
		return "(no log)"
	}
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	var out []string
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "/") || strings.HasPrefix(t, "=") || strings.HasPrefix(t, "Goroutine ") && !strings.Contains(t, "write") {
			if strings.HasPrefix(t, "Goroutine ") {
				break
			}
			continue
		}
		if i := strings.Index(t, " by goroutine"); i > 0 {
			t = t[:i]
			if j := strings.Index(t, " at 0x"); j > 0 {
				t = t[:j]
			}
		}
		t = strings.TrimPrefix(t, "github.com/codeallergy/")
		out = append(out, t)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// Exec runs one scenario with one seed or choice list. A violation is in the
// returned Sim; err is trouble of the simulator itself.
func Exec(run func(*Sim), s *Sim) (cut bool, err error) {
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		switch x := e.(type) {
		case *Violation:
			if s.Viol == nil {
				s.Viol = x
			}
		case StepLimit:
			cut = true
		case HarnessError:
			err = fmt.Errorf("%s", x.Msg)
		default:
			st := string(debug.Stack())
			if LibraryPanic(st) {
				if s.Viol == nil {
					s.Viol = &Violation{"panic", Clip(fmt.Sprintf("panic: %v (%s)", e, PanicSite(st)), 1200)}
				}
			} else {
				// what the library returned broke the code that looks at it
				if s.Viol == nil {
					s.Viol = &Violation{"broken-result", Clip(fmt.Sprintf("what was returned can not be used: %v (%s)", e, PanicSite(st)), 1200)}
				}
			}
		}
	}()
	run(s)
	return false, nil
}
