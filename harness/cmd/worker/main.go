// Command worker generates and checks cases of a property.
package main

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"verifharness/pbt"
	"verifharness/props"
)

type result struct {
	Property   string         `json:"property"`
	Cases      int            `json:"cases"`
	NonTrivial int            `json:"nontrivial"`
	Hashes     []uint64       `json:"hashes"`
	Samples    []string       `json:"samples"`
	Classes    map[string]int `json:"classes"`
	Failure    *failure       `json:"failure,omitempty"`
	Rule       string         `json:"rule"`
	TimedOut   bool           `json:"timed_out"`
}

type failure struct {
	Property string   `json:"property"`
	Message  string   `json:"message"`
	Details  []string `json:"details"`
	Choices  []uint32 `json:"choices"`
	Seed     int64    `json:"seed"`
	Index    int      `json:"index"`
	Tape     int64    `json:"tape,omitempty"` // seed, if the choices are not known
}

var (
	propID     = flag.String("prop", "", "property")
	seed       = flag.Int64("seed", 1, "seed")
	shard      = flag.Int("shard", 0, "shard")
	shards     = flag.Int("shards", 1, "number of shards")
	cases      = flag.Int("cases", 0, "number of cases (0: as the tier says)")
	limit      = flag.Duration("time", 60*time.Second, "time limit")
	out        = flag.String("out", "", "file to write the result to")
	state      = flag.String("state", "", "file to write the current seed to")
	replay     = flag.String("replay", "", "failure to replay")
	crashed    = flag.Int64("crashed", 0, "seed that crashed, to be shrunk")
	bin        = flag.String("bin", "", "directory with the command line tools")
	scratch    = flag.String("scratch", "", "scratch directory")
	thorough   = flag.Bool("thorough", false, "thorough tier")
	race       = flag.Bool("race", false, "built with the race detector")
	known      = flag.Bool("known", false, "check the known findings")
	shrinkTime = flag.Duration("shrink", 20*time.Second, "time for simplifying a failure")
	hangTime   = flag.Duration("hang", 60*time.Second, "a case that takes longer hangs")
)

func caseSeed(prop string, seed int64, shard, i int) int64 {
	h := fnv.New64a()
	h.Write([]byte(prop))
	for _, v := range []int64{seed, int64(shard), int64(i)} {
		binary.Write(h, binary.LittleEndian, v)
	}
	return int64(h.Sum64() >> 1)
}

func main() {
	flag.Parse()
	log.SetFlags(0)
	log.SetOutput(io.Discard)
	// cases may change the working directory
	for _, p := range []*string{bin, scratch, replay, out, state} {
		if *p != "" {
			if a, err := filepath.Abs(*p); err == nil {
				*p = a
			}
		}
	}
	p := props.All[*propID]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *propID)
		os.Exit(2)
	}
	env := &props.Env{Bin: *bin, Scratch: *scratch, Race: *race, Thorough: *thorough}
	if env.Scratch == "" {
		d, err := os.MkdirTemp("", "verif")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		defer os.RemoveAll(d)
		env.Scratch = d
	}
	switch {
	case *known:
		var l []props.Finding
		if p.Known != nil {
			l = p.Known()
		}
		json.NewEncoder(os.Stdout).Encode(l)
	case *replay != "":
		doReplay(p, env)
	case *crashed != 0:
		doCrashed(p, env)
	default:
		doSearch(p, env)
	}
}

func doSearch(p *props.Prop, env *props.Env) {
	n := p.Quick
	if env.Thorough {
		n = p.Thorough
	}
	n = (n + *shards - 1) / *shards
	if *cases > 0 {
		n = *cases
	}
	res := &result{Property: p.ID, Rule: p.Rule, Classes: map[string]int{}}
	deadline := time.Now().Add(*limit)
	var st *os.File
	if *state != "" {
		var err error
		if st, err = os.Create(*state); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	var started int64
	go watchdog(&started)
	seen := map[uint64]bool{}
	for i := 0; i < n; i++ {
		if time.Now().After(deadline) {
			res.TimedOut = true
			break
		}
		s := caseSeed(p.ID, *seed, *shard, i)
		if st != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(s))
			st.WriteAt(b[:], 0)
		}
		atomic.StoreInt64(&started, time.Now().UnixNano())
		o := props.RunCase(p, pbt.New(s), env, i)
		atomic.StoreInt64(&started, 0)
		res.Cases++
		for _, c := range o.Classes {
			res.Classes[c]++
		}
		if o.NonTrivial {
			res.NonTrivial++
			h := binary.LittleEndian.Uint64(o.Key[:])
			if !seen[h] {
				seen[h] = true
				if len(res.Samples) < 4 && len(o.Sample) > 0 && (len(o.Sample) < 1500 || i > n/2) {
					res.Samples = append(res.Samples, props.Clip(o.Sample, 1500))
				}
			}
		}
		if o.Failed {
			res.Failure = shrink(p, env, o, s, i)
			break
		}
	}
	for h := range seen {
		res.Hashes = append(res.Hashes, h>>11) // fits a double
	}
	write(res)
	if res.Failure != nil {
		os.Exit(1)
	}
}

func write(v interface{}) {
	b, err := json.Marshal(v)
	if err == nil && *out != "" {
		err = os.WriteFile(*out, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func watchdog(started *int64) {
	for {
		time.Sleep(200 * time.Millisecond)
		if t := atomic.LoadInt64(started); t != 0 && time.Since(time.Unix(0, t)) > *hangTime {
			fmt.Fprintf(os.Stderr, "case takes longer than %s\n", *hangTime)
			os.Exit(3)
		}
	}
}

// kind tells failures apart, so that one does not turn into another while it is shrunk.
func kind(msg string) string {
	if i := strings.IndexByte(msg, '\n'); i >= 0 {
		msg = msg[:i]
	}
	if i := strings.IndexAny(msg, "0123456789\"`:"); i > 0 {
		msg = msg[:i]
	}
	return msg
}

func shrink(p *props.Prop, env *props.Env, o props.Outcome, s int64, i int) *failure {
	k := kind(o.Msg)
	c := pbt.Shrink(o.Choices, func(c []uint32) ([]uint32, [][2]int, bool) {
		r := props.RunCase(p, pbt.Replay(c), env, 0)
		return r.Choices, r.Spans, r.Failed && kind(r.Msg) == k
	}, *shrinkTime)
	best := props.RunCase(p, pbt.Replay(c), env, 0)
	if !best.Failed {
		best = o
	}
	return &failure{Property: p.ID, Message: best.Msg, Details: best.Details, Choices: best.Choices, Seed: s, Index: i}
}

func doReplay(p *props.Prop, env *props.Env) {
	b, err := os.ReadFile(*replay)
	var f failure
	if err == nil {
		err = json.Unmarshal(b, &f)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if f.Tape != 0 {
		f.Choices = pbt.Tape(f.Tape, 1<<15)
	}
	var started int64
	go watchdog(&started)
	atomic.StoreInt64(&started, time.Now().UnixNano())
	o := props.RunCase(p, pbt.Replay(f.Choices), env, f.Index)
	if !o.Failed {
		fmt.Println("the property holds for this case")
		return
	}
	fmt.Printf("%s\n", o.Msg)
	for _, d := range o.Details {
		fmt.Println(d)
	}
	os.RemoveAll(env.Scratch)
	os.Exit(1)
}

// doCrashed finds and simplifies the choices that take down the process.
func doCrashed(p *props.Prop, env *props.Env) {
	msg := ""
	fails := func(c []uint32) bool {
		fn := filepath.Join(env.Scratch, "try.json")
		b, _ := json.Marshal(failure{Property: p.ID, Choices: c})
		if err := os.WriteFile(fn, b, 0644); err != nil {
			return false
		}
		dir, err := os.MkdirTemp(env.Scratch, "try")
		if err != nil {
			return false
		}
		defer os.RemoveAll(dir)
		ctx, cancel := context.WithTimeout(context.Background(), *hangTime+10*time.Second)
		defer cancel()
		args := []string{"-prop", p.ID, "-replay", fn, "-scratch", dir, "-bin", *bin, "-hang", hangTime.String()}
		if *race {
			args = append(args, "-race")
		}
		out, err := exec.CommandContext(ctx, os.Args[0], args...).CombinedOutput()
		if err != nil {
			msg = props.Clip(string(out), 8000)
		}
		return err != nil
	}
	for n := 16; n <= 1<<15; n *= 4 {
		t := pbt.Tape(*crashed, n)
		bad := false
		for k := 0; k < 3 && !bad; k++ {
			bad = fails(t)
		}
		if !bad {
			continue
		}
		first := msg
		c := pbt.Shrink(t, func(c []uint32) ([]uint32, [][2]int, bool) { return c, nil, fails(c) }, 40*time.Second)
		if msg == "" {
			msg = first
		}
		write(&result{Property: p.ID, Failure: &failure{Property: p.ID, Message: msg, Choices: c, Seed: *crashed}})
		os.RemoveAll(env.Scratch)
		os.Exit(1)
	}
	fmt.Println("the crash can not be reproduced")
}
