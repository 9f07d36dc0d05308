// Package hio reads cases and writes events, one JSON object per line.
package hio

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync/atomic"
	"time"
)

// Each calls f for every line of the case file and writes what it returns to the
// event file. Events are flushed before the next case starts, so that the number of
// complete lines tells which case was running if the process dies.
func Each[C any](in, out string, f func(i int, c C) map[string]any) error {
	fi, err := os.Open(in)
	if err != nil {
		return err
	}
	defer fi.Close()
	fo, err := os.Create(out)
	if err != nil {
		return err
	}
	defer fo.Close()
	sc := bufio.NewScanner(fi)
	sc.Buffer(make([]byte, 1<<20), 1<<30)
	for i := 1; sc.Scan(); i++ {
		var c C
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			return fmt.Errorf("case %d: %w", i, err)
		}
		// a case that never returns must not hang the check
		t := time.AfterFunc(60*time.Second, func() {
			fmt.Fprintf(os.Stderr, "case %d does not return\n", i)
			os.Exit(97)
		})
		stop := make(chan struct{})
		go watch(i, stop)
		ev := f(i, c)
		t.Stop()
		close(stop)
		b, err := json.Marshal(ev)
		if err != nil {
			// an answer that is no value, like a tree that contains itself
			kept := map[string]any{}
			for k, v := range ev {
				if _, err := json.Marshal(v); err == nil {
					kept[k] = v
				}
			}
			kept["r"], kept["m2"] = "panic", err.Error()
			if b, err = json.Marshal(kept); err != nil {
				return fmt.Errorf("event %d: %w", i, err)
			}
		}
		if _, err := fo.Write(append(b, '\n')); err != nil {
			return err
		}
	}
	return sc.Err()
}

// watch ends the process when a case takes more memory than any case should, before the machine has none left.
func watch(i int, stop chan struct{}) {
	var m runtime.MemStats
	for {
		select {
		case <-stop:
			return
		case <-time.After(100 * time.Millisecond):
		}
		if runtime.ReadMemStats(&m); m.HeapAlloc <= Limit.Load() {
			continue
		}
		runtime.GC()
		if runtime.ReadMemStats(&m); m.HeapAlloc > Limit.Load() {
			fmt.Fprintf(os.Stderr, "case %d takes %d bytes\n", i, m.HeapAlloc)
			os.Exit(97)
		}
	}
}

// Limit is what a case may hold, it can be set for each.
var Limit atomic.Uint64

func init() { Limit.Store(6 << 30) }

// Guard runs f and reports a panic as text.
func Guard(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint(r)
			if panicked == "" {
				panicked = "panic"
			}
		}
	}()
	f()
	return ""
}
