package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/utils"
)

func init() {
	drivers["C28"] = driver{"random sources (valid, with rule violations, damaged at token or character level, cut off, nested, repeated), each parsed in a process that is watched: a parse that takes more than 30 s, overflows its stack or takes more than 3 GB is taken as one that does not end; every case is non-trivial", c28, true}
}

func endsMain() {
	b, _ := io.ReadAll(os.Stdin)
	var steps []seqStep
	if json.Unmarshal(b, &steps) != nil {
		os.Exit(3)
	}
	stdout := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_RDWR, 0)
	debug.SetMaxStack(256 << 20)
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 3<<30 {
				os.Exit(97)
			}
		}
	}()
	for _, s := range steps {
		var l *utils.ErrorListener
		mode := kfparser.Default
		if s.Listen {
			l = utils.NewErrorListener()
		}
		if s.Trace {
			mode = kfparser.Trace
		}
		run(s.Src, l, mode)
		fmt.Fprintln(stdout, ".")
	}
	fmt.Fprintln(stdout, "end")
}

// watch parses the sources in a process of their own; it returns the number of
// parses that ended and why the next one did not.
func watch(steps []seqStep, limit time.Duration) (int, string) {
	self, _ := os.Executable()
	b, _ := json.Marshal(steps)
	c := exec.Command(self, "ends")
	c.Stdin = bytes.NewReader(b)
	var er bytes.Buffer
	c.Stderr = &limited{w: &er}
	o, err := c.StdoutPipe()
	if err != nil {
		return 0, ""
	}
	if c.Start() != nil {
		return 0, ""
	}
	lines := make(chan string, 1000)
	go func() {
		sc := bufio.NewScanner(o)
		for sc.Scan() {
			lines <- sc.Text()
		}
		close(lines)
	}()
	n := 0
	for {
		select {
		case l, ok := <-lines:
			if !ok {
				c.Wait()
				switch {
				case c.ProcessState.ExitCode() == 97:
					return n, "takes more and more memory"
				case strings.Contains(er.String(), "stack overflow") || strings.Contains(er.String(), "stack exceeds"):
					return n, "overflows the stack"
				case strings.Contains(er.String(), "all goroutines are asleep"):
					return n, "waits for ever"
				case strings.Contains(er.String(), "out of memory"):
					return n, "takes more and more memory"
				}
				return n, "?the process died: " + short(er.String())
			}
			if l == "end" {
				c.Wait()
				return n, ""
			}
			n++
		case <-time.After(limit):
			c.Process.Kill()
			go func() {
				for range lines {
				}
			}()
			c.Wait()
			return n, fmt.Sprintf("does not end within %v", limit)
		}
	}
}

type limited struct {
	w *bytes.Buffer
}

func (l *limited) Write(b []byte) (int, error) {
	if l.w.Len() < 1<<16 {
		l.w.Write(b)
	}
	return len(b), nil
}

func c28(r *rand.Rand, deadline time.Time, res *result) {
	g := &gen{r: r}
	base := corpus()
	seen := map[string]bool{}
	for n := 0; time.Now().Before(deadline) && len(res.Findings) == 0; n++ {
		var steps []seqStep
		put := func(t string) {
			steps = append(steps, seqStep{strings.ToValidUTF8(t, "?"), g.p(0.1), g.p(0.3)})
			if !seen[t] {
				seen[t] = true
				res.Distinct++
			}
		}
		if n == 0 && *shard <= 0 {
			for _, t := range base {
				put(t)
			}
		}
		for len(steps) < 400 {
			switch g.n(8) {
			case 0:
				g.bad = 0.02
				put(g.render(g.kin(g.source(1 + g.n(4)))))
			case 1: // cut off
				t := g.next()
				if g.p(0.3) {
					t = pickOf(g, base)
				}
				rs := []rune(t)
				put(string(rs[:g.n(len(rs)+1)]))
			case 2: // damaged several times
				g.bad = 0.05
				ts := g.source(1 + g.n(3))
				for k := g.n(4); k > 0; k-- {
					ts = g.tear(ts)
				}
				put(g.render(ts))
			case 3:
				put(g.tearText(pickOf(g, base)))
			case 4: // nested and repeated
				k := 1 + g.n(40)
				e := g.pick("1", "$a", "'x'", "", "@caller", "f(", "1 +", "not", "-", ")")
				o := g.pick("(", "abs(", "not ", "-", "1 + ", "1 and ", "($a = ", "lower(1, ")
				cl := ""
				if strings.Contains(o, "(") {
					cl = strings.Repeat(")", k+g.n(3)-1)
				}
				put("database d; action f($a) public { f(" + strings.Repeat(o, k) + e + cl + "); }")
			case 5: // repeated parts
				rep := g.pick("table t { a int }", "use x as a;", "action f() public { }", "@a(x=1)", ",", "{", "(", "a int,", "init() { select 1; }", "/*", "'", ";", "fk (a) ref t (a) on_update cascade")
				put("database d; " + strings.Repeat(rep, 1+g.n(30)) + g.pick("", "}", ")", ";", "table u { b int }"))
			default:
				put(g.next())
			}
		}
		res.Evaluations += len(steps)
		k, why := watch(steps, 30*time.Second)
		if why == "" {
			res.sample(steps[len(steps)-1].Src)
			continue
		}
		if strings.HasPrefix(why, "?") {
			res.Err = why
			continue
		}
		if k < len(steps) {
			// the source alone, or after the ones before it
			h := steps[k : k+1]
			if _, w := watch(h, 60*time.Second); w != "" && !strings.HasPrefix(w, "?") {
				res.note(finding{ID: "C28:endless", What: fmt.Sprintf("the parse of %q (trace %v, listener %v) %s", h[0].Src, h[0].Trace, h[0].Listen, w), Input: h[0].Src})
				return
			}
			if _, w := watch(steps[:k+1], 60*time.Second); w != "" && !strings.HasPrefix(w, "?") {
				res.note(finding{ID: "C28:endless", What: fmt.Sprintf("the parse of %q (trace %v, listener %v), after others, %s", h[0].Src, h[0].Trace, h[0].Listen, w), Input: h[0].Src})
				return
			}
		}
	}
}
