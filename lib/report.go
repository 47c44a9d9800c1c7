package main

// Reporting shared by the in-process harnesses: JSON lines on stdout, judged by the Python side.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/signal"
	"runtime/debug"
	"strconv"
	"sync"
	"syscall"
	"time"
)

var rep = struct {
	sync.Mutex
	evals   int
	seen    map[uint64]bool
	counts  map[string]int
	notes   map[string]map[string]bool
	samples []any
	fails   int
	current string
	began   time.Duration
}{seen: map[uint64]bool{}, counts: map[string]int{}, notes: map[string]map[string]bool{}}

func emit(v map[string]any) {
	bs, err := json.Marshal(v)
	if err != nil {
		bs, _ = json.Marshal(map[string]any{"t": v["t"], "what": fmt.Sprint(v["what"]), "case": fmt.Sprintf("%q", fmt.Sprint(v["case"]))})
	}
	os.Stdout.Write(append(bs, '\n'))
}

// fail reports a violation.
func fail(what string, cas any) {
	rep.Lock()
	defer rep.Unlock()
	rep.fails++
	if rep.fails <= 20 {
		emit(map[string]any{"t": "fail", "what": what, "case": cas})
	}
}

func expect(ok bool, what string, cas any) bool {
	if !ok {
		fail(what, cas)
	}
	return ok
}

// saw counts an evaluated case.
func saw(key string, nontrivial bool) {
	h := fnv.New64a()
	h.Write([]byte(key))
	rep.Lock()
	defer rep.Unlock()
	rep.evals++
	if nontrivial {
		rep.seen[h.Sum64()] = true
	}
}

func count(name string, n int) {
	rep.Lock()
	defer rep.Unlock()
	rep.counts[name] += n
}

func note(name, member string) {
	rep.Lock()
	defer rep.Unlock()
	if rep.notes[name] == nil {
		rep.notes[name] = map[string]bool{}
	}
	if len(rep.notes[name]) < 100000 {
		rep.notes[name][member] = true
	}
}

func sample(v any) {
	rep.Lock()
	defer rep.Unlock()
	if len(rep.samples) < 3 {
		rep.samples = append(rep.samples, v)
	}
}

// caseLimit is the processor time one guarded case may use; cases need some milliseconds.
var caseLimit = 100 * time.Second

// used is the processor time that this process has used so far.
func used() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// endless reports the current case as one that does not end, and ends the process.
func endless() {
	emit(map[string]any{"t": "fail", "what": "used up its processor time (does not end) while: " + rep.current, "case": rep.current})
	os.Exit(0)
}

// begin notes that a case starts.
func begin(what string) {
	rep.Lock()
	defer rep.Unlock()
	rep.current, rep.began = what, used()
}

// guard runs one case; a panic in it is a violation, and so is not ending.
func guard(what string, cas any, f func()) {
	begin(what)
	defer func() {
		if p := recover(); p != nil {
			fail(fmt.Sprintf("%s: panic: %v\n%s", what, p, debug.Stack()), cas)
		}
	}()
	f()
}

// start reads the arguments (seed, number of cases) and arms the processor-time monitor.
func start() (*rand.Rand, int) {
	seed, _ := strconv.ParseInt(os.Args[1], 10, 64)
	n, _ := strconv.Atoi(os.Args[2])
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, syscall.SIGXCPU)
	go func() {
		<-ch
		endless()
	}()
	rep.began = used()
	go func() {
		for caseLimit > 0 {
			time.Sleep(time.Second)
			rep.Lock()
			over := used()-rep.began > caseLimit
			rep.Unlock()
			if over {
				endless()
			}
		}
	}()
	return rand.New(rand.NewSource(seed)), n
}

func done() {
	rep.Lock()
	defer rep.Unlock()
	notes := map[string]int{}
	for k, v := range rep.notes {
		notes[k] = len(v)
	}
	seen := make([]string, 0, len(rep.seen))
	for k := range rep.seen {
		seen = append(seen, strconv.FormatUint(k, 36))
	}
	emit(map[string]any{"t": "done", "evals": rep.evals, "seen": seen, "counts": rep.counts, "notes": notes, "samples": rep.samples})
}

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }
