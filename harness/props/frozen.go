package props

import (
	"io"
	"os"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

// The testing package is used as a library to get at testing/synctest: a bubble has its own clock, which starts at a
// fixed instant and only moves when every goroutine in the bubble is blocked.

type corpusEntry = struct {
	Parent     string
	Path       string
	Data       []byte
	Values     []any
	Generation int
	IsSeed     bool
}

type noDeps struct{}

func (noDeps) ImportPath() string                        { return "" }
func (noDeps) ModulePath() string                        { return "" }
func (noDeps) MatchString(pat, str string) (bool, error) { return true, nil }
func (noDeps) SetPanicOnExit0(bool)                      {}
func (noDeps) StartCPUProfile(io.Writer) error           { return nil }
func (noDeps) StopCPUProfile()                           {}
func (noDeps) StartTestLog(io.Writer)                    {}
func (noDeps) StopTestLog() error                        { return nil }
func (noDeps) WriteProfileTo(string, io.Writer, int) error {
	return nil
}
func (noDeps) CoordinateFuzzing(time.Duration, int64, time.Duration, int64, int, []corpusEntry, []reflect.Type, string, string) error {
	return nil
}
func (noDeps) RunFuzzWorker(func(corpusEntry) error) error { return nil }
func (noDeps) ReadCorpus(string, []reflect.Type) ([]corpusEntry, error) {
	return nil, nil
}
func (noDeps) CheckCorpus([]any, []reflect.Type) error { return nil }
func (noDeps) ResetCoverage()                          {}
func (noDeps) SnapshotCoverage()                       {}
func (noDeps) InitRuntimeCoverage() (string, func(string, string) (string, error), func() float64) {
	return "", func(string, string) (string, error) { return "", nil }, func() float64 { return 0 }
}

var testingOnce sync.Once

// bubble runs f in a bubble of its own and hands on its panic.
func bubble(f func()) {
	testingOnce.Do(func() {
		// parses the flags of the testing package, once
		out, err := os.Stdout, os.Stderr
		null, e := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		if e != nil {
			panic(e)
		}
		os.Stdout, os.Stderr = null, null
		testing.MainStart(noDeps{}, nil, nil, nil, nil).Run()
		os.Stdout, os.Stderr = out, err
		null.Close()
	})
	var p interface{}
	ran := false
	testing.RunTests(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "bubble", F: func(t *testing.T) {
		synctest.Test(t, func(t *testing.T) {
			defer func() { p = recover() }()
			ran = true
			f()
		})
	}}})
	if p != nil {
		panic(p)
	}
	if !ran {
		panic("the bubble did not run")
	}
}
