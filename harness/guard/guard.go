// Package guard runs the body of a check in a child process so that a crash that cannot be recovered (stack overflow,
// fatal error), a hang or a memory explosion of the code under test is attributed to the input that caused it.
package guard

import (
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/ev"
)

const slotSize = 1 << 16

// Hang is how long one case may take before it is called a hang (a case normally takes microseconds to milliseconds).
var Hang = 30 * time.Second

// Guard holds the slots of the workers.
type Guard struct {
	Slots []*Slot
	mem   []byte
}

// Slot announces what one worker is executing.
type Slot struct {
	buf   []byte
	since int64
}

// Begin announces a case; a case longer than the slot is truncated.
func (s *Slot) Begin(kind byte, data string) {
	n := len(data)
	if n > slotSize-32 {
		n = slotSize - 32
	}
	s.buf[12] = kind
	copy(s.buf[16:], data[:n])
	binary.LittleEndian.PutUint32(s.buf[8:], uint32(n))
	binary.LittleEndian.PutUint64(s.buf[0:], binary.LittleEndian.Uint64(s.buf[0:])+1)
	s.buf[13] = 1
	atomic.StoreInt64(&s.since, time.Now().UnixNano())
}

// End says the case is over.
func (s *Slot) End() {
	s.buf[13] = 0
	atomic.StoreInt64(&s.since, 0)
}

// Main runs body under guard; one re-executes a single announced case.
func Main(id string, body func(c *ev.Check, g *Guard), one func(kind byte, data string)) {
	debug.SetMaxStack(128 << 20)
	if f := os.Getenv("VERIF_ONE"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil || len(b) < 1 {
			os.Exit(3)
		}
		go func() { memWatch(); os.Exit(4) }()
		one(b[0], string(b[1:]))
		os.Exit(0)
	}
	n := runtime.NumCPU()
	if path := os.Getenv("VERIF_SLOTS"); path != "" {
		g := &Guard{}
		fd, err := syscall.Open(path, syscall.O_RDWR, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		g.mem, err = syscall.Mmap(fd, 0, n*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for i := 0; i < n; i++ {
			g.Slots = append(g.Slots, &Slot{buf: g.mem[i*slotSize : (i+1)*slotSize]})
		}
		go func() {
			go func() { memWatch(); os.Exit(4) }()
			for {
				time.Sleep(500 * time.Millisecond)
				now := time.Now().UnixNano()
				for _, s := range g.Slots {
					if t := atomic.LoadInt64(&s.since); t != 0 && now-t > int64(Hang) {
						fmt.Fprintln(os.Stderr, "a case runs for more than", Hang)
						os.Exit(4)
					}
				}
			}
		}()
		c := ev.New(id)
		body(c, g)
		c.Finish()
	}
	// parent
	work := os.Getenv("VERIF_WORK")
	if work == "" {
		work, _ = os.MkdirTemp("", "verif-")
		os.Setenv("VERIF_WORK", work)
	}
	path := filepath.Join(work, "slots")
	if err := os.WriteFile(path, make([]byte, n*slotSize), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	start := time.Now()
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_SLOTS="+path)
	cmd.Stdout = os.Stdout
	tail := &tailWriter{}
	cmd.Stderr = tail
	err := cmd.Run()
	rc := cmd.ProcessState.ExitCode()
	if rc == 0 || rc == 1 || rc == 3 {
		os.Exit(rc)
	}
	_ = err
	b, _ := os.ReadFile(path)
	c := ev.New(id)
	c.Start = start
	c.Exhaustive = false
	tried := 0
	for i := 0; i < n && (i+1)*slotSize <= len(b); i++ {
		s := b[i*slotSize : (i+1)*slotSize]
		c.Step(int(binary.LittleEndian.Uint64(s)))
		c.Trace(int(binary.LittleEndian.Uint64(s)))
		if s[13] == 0 {
			continue
		}
		tried++
		kind := s[12]
		data := string(s[16 : 16+binary.LittleEndian.Uint32(s[8:])])
		how, same := "", true
		for k := 0; k < 3 && same; k++ {
			h := runOne(work, kind, data)
			if h == "" { // the three runs need not fail alike: an endless loop may also exhaust memory first
				same = false
			}
			if how == "" {
				how = h
			}
		}
		if same && how != "" {
			c.Sample(data)
			c.States++
			c.Violate("crash:"+data, fmt.Sprintf("the compiler %s on this input (kind %d):\n%s", how, kind, data))
		}
	}
	if !c.Failed() {
		fmt.Fprintf(os.Stderr, "%s: child ended with %d and no case of %d reproduces it\n", id, rc, tried)
		os.Exit(3)
	}
	c.Finish()
}

func memWatch() {
	var m runtime.MemStats
	for {
		time.Sleep(time.Second)
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 4<<30 {
			fmt.Fprintln(os.Stderr, "memory explosion")
			return
		}
	}
}

func runOne(work string, kind byte, data string) string {
	f := filepath.Join(work, "one")
	_ = os.WriteFile(f, append([]byte{kind}, data...), 0644)
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_ONE="+f)
	if err := cmd.Start(); err != nil {
		return ""
	}
	done := make(chan struct{})
	go func() { _ = cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(Hang):
		_ = cmd.Process.Kill()
		<-done
		return "does not terminate"
	}
	switch cmd.ProcessState.ExitCode() {
	case 0, 3:
		return ""
	case 4:
		return "exhausts memory"
	}
	return "crashes"
}

type tailWriter struct{ n int }

func (t *tailWriter) Write(p []byte) (int, error) {
	if t.n < 20000 {
		q := p
		if len(q) > 4000 {
			q = q[:4000]
		}
		t.n += len(q)
		_, _ = os.Stderr.Write(q)
	}
	return len(p), nil
}
