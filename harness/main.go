package main

// drv: runs the real code on generated cases and records traces.
//
//   drv run -fam F -seed N -n N -shards K -out DIR [-only ID]
//
// Every shard is a child process that handles its ids in order.  When it dies
// or hangs, the supervisor records that for the id it was working on and
// restarts it behind that id.

import (
	"bufio"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Case is one recorded session.
type TCase interface {
	exec()
	J(id int) D
	setEnd(kind string)
}

func (s *Session) setEnd(kind string) { s.ev = append(s.ev, L{kind}); s.end = "done" }

// Fam makes the case with the given number; nil: no such case.
type Fam func(seed int64, tier string, id int) TCase

var fams = map[string]Fam{}
var famSize = map[string]func(seed int64, tier string) int{} // exhaustive families

func caseRand(seed int64, fam string, id int) *rand.Rand {
	h := seed*1000003 + int64(id)*7919
	for _, c := range fam {
		h = h*31 + int64(c)
	}
	return rand.New(rand.NewSource(h))
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: drv run|size ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("drv", flag.ExitOnError)
	fam := fs.String("fam", "", "family")
	seed := fs.Int64("seed", 1, "seed")
	tier := fs.String("tier", "quick", "tier")
	n := fs.Int("n", 0, "number of cases (0: all of an exhaustive family)")
	shards := fs.Int("shards", 8, "shards")
	out := fs.String("out", "", "output directory")
	only := fs.Int("only", -1, "only this id")
	shard := fs.Int("shard", -1, "worker: shard")
	from := fs.Int("from", 0, "worker: first id")
	limit := fs.Int("limit", 10, "seconds for one case")
	fs.Parse(os.Args[2:])
	f, ok := fams[*fam]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such family", *fam)
		os.Exit(2)
	}
	if *n == 0 {
		if sz, ok := famSize[*fam]; ok {
			*n = sz(*seed, *tier)
		}
	}
	switch os.Args[1] {
	case "run":
		if *shard >= 0 {
			worker(f, *fam, *seed, *tier, *n, *shards, *shard, *from, *only, *limit, *out)
		} else {
			supervise(f, *fam, *seed, *tier, *n, *shards, *only, *limit, *out)
		}
	default:
		os.Exit(2)
	}
}

func worker(f Fam, fam string, seed int64, tier string, n, shards, shard, from, only, limit int, out string) {
	debug.SetMaxStack(512 << 20)
	runtime.GOMAXPROCS(2)
	if strings.HasPrefix(fam, "conc") {
		runtime.GOMAXPROCS(8)
	}
	file, err := os.OpenFile(filepath.Join(out, fmt.Sprintf("%s.%d.ndjson", fam, shard)),
		os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	check(err)
	prog, err := os.OpenFile(filepath.Join(out, fmt.Sprintf("%s.%d.prog", fam, shard)),
		os.O_CREATE|os.O_WRONLY, 0o644)
	check(err)
	w := bufio.NewWriterSize(file, 1<<16)
	var mu sync.Mutex
	started := time.Now()
	busy := false
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			mu.Lock()
			b, t := busy, started
			mu.Unlock()
			var ms runtime.MemStats
			if b && time.Since(t) > time.Second {
				runtime.ReadMemStats(&ms)
			}
			if b && (time.Since(t) > time.Duration(limit)*time.Second || ms.HeapAlloc > 3<<29) {
				os.Exit(97)
			}
		}
	}()
	for id := from; id < n; id++ {
		if only >= 0 && id != only {
			continue
		}
		if id%shards != shard && only < 0 {
			continue
		}
		prog.WriteAt([]byte(fmt.Sprintf("%-12d", id)), 0)
		c := f(seed, tier, id)
		if c == nil {
			continue
		}
		mu.Lock()
		started, busy = time.Now(), true
		mu.Unlock()
		c.exec()
		mu.Lock()
		busy = false
		mu.Unlock()
		w.Write(jline(c.J(id)))
		w.Flush()
	}
	w.Flush()
	file.Close()
}

func supervise(f Fam, fam string, seed int64, tier string, n, shards, only, limit int, out string) {
	check(os.MkdirAll(out, 0o755))
	var wg sync.WaitGroup
	bad := make([]bool, shards)
	k := shards
	if only >= 0 {
		k = 1
	}
	for sh := 0; sh < k; sh++ {
		wg.Add(1)
		go func(sh int) {
			defer wg.Done()
			from := 0
			for deaths := 0; ; deaths++ {
				args := []string{"run", "-fam", fam, "-seed", fmt.Sprint(seed), "-tier", tier,
					"-n", fmt.Sprint(n), "-shards", fmt.Sprint(shards), "-shard", fmt.Sprint(sh),
					"-from", fmt.Sprint(from), "-only", fmt.Sprint(only), "-limit", fmt.Sprint(limit), "-out", out}
				cmd := exec.Command(os.Args[0], args...)
				var eb tail
				cmd.Stderr = &eb
				cmd.Stdout = &eb
				err := cmd.Run()
				if err == nil {
					return
				}
				b, e2 := os.ReadFile(filepath.Join(out, fmt.Sprintf("%s.%d.prog", fam, sh)))
				id, e3 := strconv.Atoi(strings.TrimSpace(string(b)))
				if e2 != nil || e3 != nil {
					fmt.Fprintln(os.Stderr, "worker failed:", err, eb.String())
					bad[sh] = true
					return
				}
				kind := "crash"
				if cmd.ProcessState.ExitCode() == 97 {
					kind = "hang"
				} else if cmd.ProcessState.ExitCode() == 66 && strings.Contains(eb.String(), "DATA RACE") {
					kind = "race" // proof enough, though the next run may not show it
				} else if !strings.Contains(eb.String(), "goroutine") && !strings.Contains(eb.String(), "fatal error") {
					kind = "died" // killed from outside: no verdict
				}
				fmt.Fprintf(os.Stderr, "%s: case %d: %s\n%s\n", fam, id, kind, eb.head(1500))
				if kind == "died" {
					bad[sh] = true
					return
				}
				c := f(seed, tier, id)
				c.setEnd(kind)
				fh, err := os.OpenFile(filepath.Join(out, fmt.Sprintf("%s.%d.ndjson", fam, sh)),
					os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
				check(err)
				fh.Write(jline(c.J(id)))
				fh.Close()
				if deaths >= 2 || only >= 0 { // enough violations on record
					return
				}
				from = id + 1
			}
		}(sh)
	}
	wg.Wait()
	for _, b := range bad {
		if b {
			os.Exit(3)
		}
	}
}

// tail keeps the first and the last part of a process's output.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }
func (t *tail) head(n int) string {
	if len(t.b) < n {
		n = len(t.b)
	}
	return string(t.b[:n])
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
