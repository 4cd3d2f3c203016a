package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/leftmike/maho/types"
)

// Res is the result of an event, as the specification writes it.
type Res = []any

var (
	resOK  = Res{"ok"}
	resRej = Res{"rej"}
)

// Name is a written name: 0 for unquoted or 1 for quoted followed by the bytes.
type Name []int

func mkName(quoted bool, s string) Name {
	n := make(Name, 0, len(s)+1)
	if quoted {
		n = append(n, 1)
	} else {
		n = append(n, 0)
	}
	for i := 0; i < len(s); i++ {
		n = append(n, int(s[i]))
	}
	return n
}

func (n Name) text() string {
	b := make([]byte, 0, len(n))
	for _, x := range n[1:] {
		b = append(b, byte(x))
	}
	return string(b)
}

func (n Name) id() types.Identifier {
	if len(n) == 1 {
		return 0
	}
	return types.ID(n.text(), n[0] == 1)
}

// idName writes an identifier as a name: unquoted only when it must be, as for a keyword.
func idName(id types.Identifier) Name {
	s := id.String()
	if types.ID(s, true) == id {
		return mkName(true, s)
	}
	return mkName(false, s)
}

// The watchdog: an operation which takes too long is a hang.
const hangAfter = 25 * time.Second

// clock watches the operations of one goroutine.
type clock struct {
	start  atomic.Int64
	onHang func()
	strict bool // a panic is not a refusal
}

var (
	clocksMu sync.Mutex
	clocks   = map[*clock]bool{}
)

func newClock(onHang func()) *clock {
	c := &clock{onHang: onHang}
	clocksMu.Lock()
	clocks[c] = true
	clocksMu.Unlock()
	return c
}

func (c *clock) done() {
	clocksMu.Lock()
	delete(clocks, c)
	clocksMu.Unlock()
}

func startWatchdog() {
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			clocksMu.Lock()
			for c := range clocks {
				t := c.start.Load()
				if t == 0 {
					continue
				}
				d := time.Since(time.Unix(0, t))
				// Using up the memory is a hang too.
				if d > hangAfter || d > time.Second && ms.HeapAlloc > 6<<30 {
					if c.onHang != nil {
						c.onHang()
					}
					os.Exit(0)
				}
			}
			clocksMu.Unlock()
		}
	}()
}

// guard runs one call of the real code: an error is a refusal, and so is a panic unless strict.
func (c *clock) guard(f func() (Res, error)) (res Res) {
	c.start.Store(time.Now().UnixNano())
	defer func() {
		c.start.Store(0)
		if r := recover(); r != nil {
			res = resRej
			if _, fault := r.(injected); c.strict && !fault {
				res = Res{"panic"}
			}
		}
	}()
	res, err := f()
	if err != nil {
		return resRej
	}
	return res
}

type traceWriter struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
	n  int
}

func newTrace(path string) *traceWriter {
	f, err := os.Create(path)
	if err != nil {
		fatal(err)
	}
	return &traceWriter{f: f, w: bufio.NewWriterSize(f, 1<<16)}
}

func (tw *traceWriter) line(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	tw.mu.Lock()
	defer tw.mu.Unlock()
	tw.w.Write(b)
	tw.w.WriteByte('\n')
	tw.n++
}

func (tw *traceWriter) close() {
	tw.mu.Lock()
	defer tw.mu.Unlock()
	tw.w.Flush()
	tw.f.Close()
}

func fatal(v ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"harness:"}, v...)...)
	os.Exit(3)
}

// normalize turns a value into what json would decode it into.
func normalize(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	var r any
	if err := json.Unmarshal(b, &r); err != nil {
		fatal(err)
	}
	return r
}

func sameJSON(a, b any) bool {
	return reflect.DeepEqual(normalize(a), normalize(b))
}

// readLines calls fn with each line of a file.
func readLines(path string, fn func(n int, b []byte)) {
	f, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	n := 0
	for sc.Scan() {
		if len(sc.Bytes()) == 0 {
			continue
		}
		n++
		b := sc.Bytes()
		if b[0] == '"' { // TLC writes strings
			var s string
			if err := json.Unmarshal(b, &s); err != nil {
				fatal(err)
			}
			b = []byte(s)
		}
		fn(n, b)
	}
	if err := sc.Err(); err != nil {
		fatal(err)
	}
}

func pick[T any](r *rand.Rand, s []T) T {
	return s[r.Intn(len(s))]
}

// weighted picks an index with probability proportional to its weight.
func weighted(r *rand.Rand, ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	if t == 0 {
		return 0
	}
	x := r.Intn(t)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return len(ws) - 1
}

func encodeJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	return b
}

// flaky is a context which is cancelled when it is looked at for the n-th time.
type flaky struct {
	context.Context
	n     atomic.Int64
	ended chan struct{}
	once  sync.Once
}

func (c *flaky) look() bool {
	if c.n.Add(-1) > 0 {
		return false
	}
	c.once.Do(func() { close(c.ended) })
	return true
}

func (c *flaky) Err() error {
	if c.look() {
		return context.Canceled
	}
	return nil
}

func (c *flaky) Done() <-chan struct{} {
	c.look()
	return c.ended
}

// canceller gives out contexts for calls of the real code.
type canceller struct{ c *flaky }

func (x *canceller) ctx() context.Context {
	if x.c == nil {
		return context.Background()
	}
	return x.c
}

// cancel makes the context of the next call end when it is looked at for the n-th time.
func (x *canceller) cancel(n int) {
	x.c = &flaky{Context: context.Background(), ended: make(chan struct{})}
	x.c.n.Store(int64(n))
}

// cancelled tells whether the call saw its context end.
func (x *canceller) cancelled() bool {
	c := x.c
	x.c = nil
	if c == nil {
		return false
	}
	select {
	case <-c.ended:
		return true
	default:
		return false
	}
}
