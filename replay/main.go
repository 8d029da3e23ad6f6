package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"time"
)

type result struct {
	Evaluations, Distinct int
	Rule                  string
	Samples               []string
	Findings              []finding
	Seconds               float64
	Err                   string
}

var (
	seed    = flag.Int64("seed", 1, "")
	seconds = flag.Float64("seconds", 10, "")
	shard   = flag.Int("shard", -1, "")
	shards  = flag.Int("shards", 6, "")
	input   = flag.String("input", "", "replay the inputs of this file")
	stop    = flag.Bool("stop", true, "stop at the first failing input")
	verbose = flag.Bool("v", false, "")
)

var devnull *os.File

// textRule says what the generated sources are.
const textRule = "random Kuneiform sources (valid, with deliberate rule violations, and damaged at token or character level), each read by an independent reference front end (lexer, parser, rule checker written for this check) and by the code under test; non-trivial: distinct sources with at least one declaration besides the database line"

type driver struct {
	rule string
	run  func(r *rand.Rand, deadline time.Time, res *result)
	par  bool
}

var drivers = map[string]driver{}

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	prop := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	if prop == "racer" {
		racerMain()
		return
	}
	if prop == "ends" {
		endsMain()
		return
	}
	if prop == "sequence" {
		seqMain()
		return
	}
	d, ok := drivers[prop]
	if !ok {
		d = driver{textRule, textDriver(prop), true}
	}
	t0 := time.Now()
	deadline := t0.Add(time.Duration(*seconds * float64(time.Second)))
	var res result
	devnull, _ = os.OpenFile(os.DevNull, os.O_RDWR, 0)
	stdout := os.Stdout
	os.Stdout = devnull
	stderr := os.Stderr // kept: a collected file closes its descriptor
	defer runtime.KeepAlive(stderr)
	if !*verbose {
		os.Stderr = devnull
	}
	switch {
	case *input != "":
		replayInputs(prop, *input, &res)
	case d.par && *shard < 0 && *shards > 1:
		res = parallel(prop)
	default:
		s := *seed
		if *shard > 0 {
			s = *seed*1000 + int64(*shard)
		}
		d.run(rand.New(rand.NewSource(s)), deadline, &res)
	}
	res.Rule = d.rule
	res.Seconds = time.Since(t0).Seconds()
	b, _ := json.Marshal(res)
	fmt.Fprintf(stdout, "\nRESULT %s\n", b)
}

func parallel(prop string) (res result) {
	self, _ := os.Executable()
	type one struct {
		out []byte
		err error
	}
	ch := make(chan one, *shards)
	for i := 0; i < *shards; i++ {
		go func(i int) {
			c := exec.Command(self, prop, "-seed", fmt.Sprint(*seed), "-seconds", fmt.Sprint(*seconds), "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(*shards), fmt.Sprintf("-stop=%v", *stop))
			o, err := c.Output()
			ch <- one{o, err}
		}(i)
	}
	seen := map[string]bool{}
	for i := 0; i < *shards; i++ {
		o := <-ch
		var r result
		k := strings.LastIndex(string(o.out), "\nRESULT ")
		if k < 0 || json.Unmarshal(o.out[k+8:], &r) != nil {
			res.Err = fmt.Sprint("a shard gave no result: ", o.err)
			continue
		}
		res.Evaluations += r.Evaluations
		res.Distinct += r.Distinct
		if len(res.Samples) < 4 {
			res.Samples = append(res.Samples, r.Samples...)
		}
		for _, f := range r.Findings {
			if !seen[f.ID] {
				seen[f.ID] = true
				res.Findings = append(res.Findings, f)
			}
		}
		if r.Err != "" {
			res.Err = r.Err
		}
	}
	sort.Slice(res.Findings, func(i, j int) bool { return len(res.Findings[i].Input) < len(res.Findings[j].Input) })
	return
}

// note records a finding once per identity.
func (res *result) note(f finding) {
	for _, g := range res.Findings {
		if g.ID == f.ID {
			return
		}
	}
	res.Findings = append(res.Findings, f)
}

func (res *result) sample(s string) {
	if len(res.Samples) < 2 {
		res.Samples = append(res.Samples, short(s))
	}
}

func textDriver(prop string) func(*rand.Rand, time.Time, *result) {
	return func(r *rand.Rand, deadline time.Time, res *result) {
		g := &gen{r: r}
		seen := map[string]bool{}
		try := func(text string) bool {
			if seen[text] {
				return false
			}
			seen[text] = true
			res.Evaluations++
			if strings.Count(text, ";")+strings.Count(text, "{") > 1 {
				res.Distinct++
			}
			for _, f := range evaluate(text) {
				if f.prop != prop && prop != "ALL" {
					continue
				}
				known := len(res.Findings) >= 40
				for _, x := range res.Findings {
					known = known || x.ID == f.ID
				}
				if known {
					continue
				}
				f.Input = shrink(text, f.ID)
				for _, h := range evaluate(f.Input) {
					if h.ID == f.ID {
						f.What = h.What
					}
				}
				f.What += " -- input: " + f.Input
				res.note(f)
			}
			return len(res.Findings) > 0 && *stop
		}
		if *shard <= 0 {
			for _, t := range corpus() {
				if try(t) {
					return
				}
			}
		}
		for time.Now().Before(deadline) {
			t := g.next()
			res.sample(t)
			if try(t) {
				return
			}
		}
	}
}

// shrink removes tokens as long as the same finding stays.
func shrink(text, id string) string {
	has := func(s string) bool {
		for _, f := range evaluate(s) {
			if f.ID == id {
				return true
			}
		}
		return false
	}
	until := time.Now().Add(5 * time.Second)
	for size := len(text) / 2; size > 0; {
		changed := false
		for i := 0; i+size <= len(text) && time.Now().Before(until); {
			s := text[:i] + text[i+size:]
			if has(s) {
				text = s
				changed = true
			} else {
				i += size/2 + 1
			}
		}
		if time.Now().After(until) {
			break
		}
		if !changed || size > len(text) {
			size /= 2
		}
	}
	return text
}

func replayInputs(prop, path string, res *result) {
	b, err := os.ReadFile(path)
	if err != nil {
		res.Err = err.Error()
		return
	}
	var f struct {
		FailingInputs []finding `json:"failing_inputs"`
	}
	if json.Unmarshal(b, &f) != nil {
		res.Err = "not a replay file"
		return
	}
	for _, x := range f.FailingInputs {
		res.Evaluations++
		for _, y := range evaluate(x.Input) {
			if y.prop == prop {
				res.note(y)
			}
		}
	}
}
