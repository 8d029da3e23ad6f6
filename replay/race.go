package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/utils"
)

func init() {
	drivers["C27"] = driver{"fresh processes under the race detector, in each of which 2 to 16 goroutines parse random sources at the same time, with their own listeners or none, in either mode; each result is compared with that of the same source parsed alone; every case is non-trivial", c27, true}
}

type raceJob struct{ Seqs [][]string }

func c27(r *rand.Rand, deadline time.Time, res *result) {
	g := &gen{r: r}
	self, _ := os.Executable()
	base := corpus()
	for n := 0; time.Now().Before(deadline) && (len(res.Findings) == 0 || !*stop); n++ {
		var j raceJob
		k := 2 + g.n(15)
		per := 1 + g.n(6)
		if n == 0 {
			k, per = 16, 1
		}
		common := g.next()
		for i := 0; i < k; i++ {
			var seq []string
			for m := 0; m < per; m++ {
				t := g.next()
				if g.p(0.2) {
					t = common
				}
				if g.p(0.3) || n == 0 {
					t = pickOf(g, base)
				}
				seq = append(seq, t)
			}
			j.Seqs = append(j.Seqs, seq)
		}
		res.Evaluations += k * per
		res.Distinct += k * per
		b, _ := json.Marshal(j)
		c := exec.Command(self, "racer")
		c.Stdin = bytes.NewReader(b)
		var o, er bytes.Buffer
		c.Stdout, c.Stderr = &o, &er
		c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		done := make(chan error, 1)
		if err := c.Start(); err != nil {
			res.Err = err.Error()
			return
		}
		go func() { done <- c.Wait() }()
		var err error
		select {
		case err = <-done:
		case <-time.After(120 * time.Second):
			c.Process.Kill()
			res.Err = "the concurrent parses did not end within 120 s"
			return
		}
		in := fmt.Sprintf("%d goroutines, sources %s", k, short(string(b)))
		switch {
		case strings.Contains(er.String(), "DATA RACE"):
			t := er.String()
			t = t[strings.Index(t, "WARNING"):]
			if len(t) > 1500 {
				t = t[:1500]
			}
			res.note(finding{ID: "C27:race", What: "data race: " + t + " -- input: " + in, Input: string(b)})
		case strings.Contains(o.String(), "\nDIFF "):
			t := o.String()
			t = t[strings.Index(t, "\nDIFF ")+6:]
			res.note(finding{ID: "C27:differs", What: short(t) + " -- input: " + in, Input: string(b)})
		case strings.Contains(er.String(), "concurrent map") || strings.Contains(er.String(), "all goroutines are asleep"):
			res.note(finding{ID: "C27:fatal", What: short(er.String()) + " -- input: " + in, Input: string(b)})
		case err != nil:
			res.Err = "a concurrent run fails: " + err.Error() + " " + short(er.String())
		}
	}
}

func racerMain() {
	b, _ := io.ReadAll(os.Stdin)
	var j raceJob
	if json.Unmarshal(b, &j) != nil {
		os.Exit(3)
	}
	out := os.Stdout
	devnull, _ = os.OpenFile(os.DevNull, os.O_RDWR, 0)
	os.Stdout = devnull
	how := func(i, m int) (*utils.ErrorListener, kfparser.Mode) {
		var l *utils.ErrorListener
		mode := kfparser.Default
		if (i+m)%3 == 0 {
			l = utils.NewErrorListener()
		}
		if (i+m)%7 == 0 {
			mode = kfparser.Trace
		}
		return l, mode
	}
	got := make([][]string, len(j.Seqs))
	start := make(chan bool)
	var wg sync.WaitGroup
	for i := range j.Seqs {
		i := i
		got[i] = make([]string, len(j.Seqs[i]))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for m, t := range j.Seqs[i] {
				l, mode := how(i, m)
				got[i][m] = view(run(t, l, mode))
			}
		}()
	}
	close(start)
	wg.Wait()
	for i := range j.Seqs {
		for m, t := range j.Seqs[i] {
			l, mode := how(i, m)
			if v := view(run(t, l, mode)); v != got[i][m] {
				fmt.Fprintf(out, "\nDIFF among other parses the source %q yields %s, alone %s", t, short(got[i][m]), short(v))
				os.Exit(0)
			}
		}
	}
}
