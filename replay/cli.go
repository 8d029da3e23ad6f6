package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/kwilteam/kuneiform/kfparser"
)

func init() {
	drivers["C18"] = driver{"runs of the built command line tool in scratch directories: every kind of argument, file and failure, compared with the documented status, output and effect; every case is non-trivial", func(r *rand.Rand, d time.Time, res *result) { cli("C18", r, d, res) }, false}
	drivers["C19"] = driver{"runs of the built command line tool in scratch directories with absent, shorter, longer and unwritable output files, compared byte by byte with the serialised schema; every case is non-trivial", func(r *rand.Rand, d time.Time, res *result) { cli("C19", r, d, res) }, false}
	drivers["C23"] = driver{"calls of the browser function in the built wasm module under node, compared with the library; every case is non-trivial", c23, false}
}

type cliRun struct {
	code int
	out  string
}

func cli(prop string, r *rand.Rand, deadline time.Time, res *result) {
	scratch := os.Getenv("KF_SCRATCH")
	bin := filepath.Join(scratch, "kuneiform")
	c := exec.Command("go", "build", "-o", bin, ".")
	c.Dir = os.Getenv("KF_REPO")
	if b, err := c.CombinedOutput(); err != nil {
		res.Err = "the tool does not build: " + string(b)
		return
	}
	os.Chmod(scratch, 0755)
	g := &gen{r: r}
	uid := uint32(65534)
	useUID := os.Getuid() == 0
	n := 0
	exe := func(dir string, args ...string) (o cliRun) {
		c := exec.Command(bin, args...)
		c.Dir = dir
		c.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin"}
		var b bytes.Buffer
		c.Stdout, c.Stderr = &b, &b
		if useUID {
			c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uid, Gid: uid, NoSetGroups: true}}
		}
		t := time.AfterFunc(60*time.Second, func() {
			if c.Process != nil {
				c.Process.Kill()
			}
		})
		err := c.Run()
		t.Stop()
		if err != nil && c.ProcessState == nil {
			o.code = -1
			o.out = err.Error()
			return
		}
		o.code = c.ProcessState.ExitCode()
		o.out = b.String()
		return
	}
	own := func(p string) {
		if useUID {
			filepath.Walk(p, func(q string, _ os.FileInfo, _ error) error { os.Lchown(q, int(uid), int(uid)); return nil })
		}
	}
	// can the tool run as an unprivileged user here?
	probe := filepath.Join(scratch, "probe")
	os.MkdirAll(probe, 0755)
	own(probe)
	if o := exe(probe, "-v"); o.code == -1 {
		useUID = false
	}
	listing := func(dir string) string {
		var b strings.Builder
		filepath.Walk(dir, func(q string, fi os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			rel, _ := filepath.Rel(dir, q)
			if fi.Mode().IsRegular() {
				d, _ := os.ReadFile(q)
				fmt.Fprintf(&b, "%s %q\n", rel, d)
			} else {
				fmt.Fprintf(&b, "%s %s\n", rel, fi.Mode().Type())
			}
			return nil
		})
		return b.String()
	}
	jsonOf := func(text string) (string, error) {
		o := run(text, nil, kfparser.Default)
		if o.panicked != nil {
			return "", fmt.Errorf("panic")
		}
		if o.err != nil {
			return "", o.err
		}
		b, err := o.sch.ToJSON()
		return string(b), err
	}
	type cas struct {
		kind, base, outArg, outDir, text string
		extra                            []string
	}
	bases := []string{"a.kf", "schema.kf", "a.b.kf", "noext", "x.json", "UPPER.KF", ".hidden", "with space.kf", "dots..kf", "sub/inner.kf", "./cur.kf", "é.kf", "a.b.c.d"}
	bad := func(kind, id string, input any, f string, a ...any) {
		b, _ := json.Marshal(input)
		res.note(finding{ID: prop + ":" + id, What: fmt.Sprintf(f, a...) + " -- case: " + string(b), Input: string(b)})
	}
	one := func(kind string) {
		n++
		dir := filepath.Join(scratch, fmt.Sprintf("w%d", n))
		os.MkdirAll(filepath.Join(dir, "sub"), 0755)
		defer os.RemoveAll(dir)
		base := pickOf(g, bases)
		text := validText(g)
		in := filepath.Join(dir, base)
		outDir := "build"
		var args []string
		switch g.n(4) {
		case 0:
		case 1:
			outDir = "out"
			args = append(args, "-o", "out")
		case 2:
			outDir = "deep/er/out"
			args = append(args, "--output", "deep/er/out")
		case 3:
			outDir = "abs"
			args = append(args, "-o="+filepath.Join(dir, "abs"))
		}
		b := filepath.Base(base)
		name := b
		if i := strings.LastIndexByte(b, '.'); i >= 0 {
			name = b[:i]
		}
		artefact := filepath.Join(dir, outDir, name+".json")
		want := 0
		writeIn := true
		trace := false
		prior := ""
		switch kind {
		case "ok", "trace":
		case "over-long", "over-short", "rejected-over":
			os.MkdirAll(filepath.Dir(artefact), 0755)
			prior = strings.Repeat("old content ", 4000)
			if kind == "over-short" {
				prior = "x"
			}
			os.WriteFile(artefact, []byte(prior), 0644)
		case "noargs", "twoargs", "version", "badflag":
		case "missing":
			writeIn = false
			want = 4
		case "isdir":
			writeIn = false
			os.MkdirAll(in, 0755)
			want = 4
		case "rejected", "syntax":
			want = 5
		case "mkdir":
			want = 3
			os.MkdirAll(filepath.Dir(filepath.Join(dir, outDir)), 0755)
			os.WriteFile(filepath.Join(dir, outDir), []byte("a file"), 0644)
		case "artefactdir":
			want = 7
			os.MkdirAll(artefact, 0755)
		case "full":
			want = 7
			os.MkdirAll(filepath.Dir(artefact), 0755)
			if os.Symlink("/dev/full", artefact) != nil {
				return
			}
			if f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err != nil {
				return
			} else {
				f.Close()
			}
		case "readonly":
			if !useUID {
				return
			}
			want = 7
		}
		if kind == "rejected" || kind == "rejected-over" {
			want = 5
			for i := 0; i < 50; i++ {
				g.bad = 0.3
				text = g.render(g.source(3))
				if _, err := jsonOf(text); err != nil {
					break
				}
			}
			if _, err := jsonOf(text); err == nil {
				text = "database d; table t { a int, a int }"
			}
		}
		if kind == "syntax" {
			text = pickOf(g, []string{"database d", "databse d;", text + " }", "", "database d; ^"})
			if _, err := jsonOf(text); err == nil {
				return
			}
		}
		exp, perr := jsonOf(text)
		if perr != nil && want == 0 {
			return
		}
		if writeIn {
			os.MkdirAll(filepath.Dir(in), 0755)
			os.WriteFile(in, []byte(text), 0644)
		}
		own(dir)
		if kind == "readonly" {
			os.MkdirAll(filepath.Dir(artefact), 0755)
			os.WriteFile(artefact, []byte("old"), 0444)
			os.Chown(artefact, 0, 0)
			prior = "old"
		}
		if kind == "trace" || g.p(0.15) {
			trace = true
			args = append(args, g.pick("-t", "--trace"))
		}
		args = append(args, base)
		if g.p(0.3) {
			// flags after the file
			args = append([]string{args[len(args)-1]}, args[:len(args)-1]...)
		}
		switch kind {
		case "noargs":
			args = nil
			want = 2
		case "twoargs":
			args = append(args, base)
			want = 2
		case "version":
			args = pickOf(g, [][]string{{"-v"}, {"--version"}, {base, "-v"}, {"-v", "-o", "zz"}})
		case "badflag":
			args = append(args, "--nosuchflag")
			want = 1
		}
		before := listing(dir)
		o := exe(dir, args...)
		after := listing(dir)
		res.Evaluations++
		res.Distinct++
		res.sample(kind + " " + strings.Join(args, " "))
		info := map[string]any{"kind": kind, "args": args, "file": base, "source": text, "output": short(o.out)}
		if o.code != want && prop == "C18" {
			bad(kind, "status-"+kind, info, "exit status %d instead of %d", o.code, want)
		}
		if prop == "C19" && want == 7 && o.code == 0 {
			bad(kind, "hidden-"+kind, info, "a failed write is reported as success")
		}
		if want == 0 && kind != "version" {
			got, err := os.ReadFile(artefact)
			if prop == "C18" {
				if err != nil {
					bad(kind, "artefact", info, "the artefact %s is not there: %v", artefact[len(dir):], err)
				}
				if trace != strings.Contains(o.out, "visit tree") {
					bad(kind, "trace", info, "trace flag %v, but the output says otherwise", trace)
				}
				// nothing else appears
				os.Remove(artefact)
				for d := filepath.Dir(artefact); d != dir; d = filepath.Dir(d) {
					if !strings.Contains(before, strings.TrimPrefix(d, dir+"/")+" d") {
						os.Remove(d)
					}
				}
				rest := listing(dir)
				if prior != "" {
					os.WriteFile(artefact, []byte(prior), 0644)
					rest = listing(dir)
				}
				if rest != before {
					bad(kind, "effects", info, "files besides the artefact changed: %s instead of %s", short(rest), short(before))
				}
			}
			if prop == "C19" && o.code == 0 && (err != nil || string(got) != exp) {
				bad(kind, "content", info, "the output file holds %q instead of %q (%v)", short(string(got)), short(exp), err)
			}
			return
		}
		if kind == "version" {
			if prop == "C18" && (after != before || strings.TrimSpace(o.out) == "" || o.code != 0 || strings.Contains(o.out, "Successfully")) {
				bad(kind, "version", info, "asking for the version does more than print it (status %d, output %q)", o.code, o.out)
			}
			return
		}
		if prop == "C18" && want != 7 {
			// no artefact may appear or change; the output directory may
			strip := func(l string) string {
				var keep []string
				for _, x := range strings.Split(l, "\n") {
					if !strings.HasSuffix(x, " d---------") {
						keep = append(keep, x)
					}
				}
				return strings.Join(keep, "\n")
			}
			if strip(before) != strip(after) {
				bad(kind, "effects", info, "a failed run (status %d) changed files: %s instead of %s", o.code, short(after), short(before))
			}
		}
	}
	kinds := strings.Fields("ok trace over-long over-short rejected-over noargs twoargs version badflag missing isdir rejected syntax mkdir artefactdir full readonly")
	if prop == "C19" {
		kinds = strings.Fields("ok over-long over-short artefactdir full readonly ok over-long")
	}
	for round := 0; round < 40 && time.Now().Before(deadline) && len(res.Findings) == 0; round++ {
		for _, k := range kinds {
			one(k)
		}
	}
}

func validText(g *gen) string {
	g.bad = 0
	for i := 0; i < 20; i++ {
		t := g.render(g.source(1 + g.n(4)))
		if o := run(t, nil, kfparser.Default); o.panicked == nil && o.err == nil {
			return t
		}
	}
	return "database d;"
}

const nodeScript = `
const fs = require("fs");
globalThis.require = require;
require(process.argv[2]);
const go = new Go();
const cases = JSON.parse(fs.readFileSync(process.argv[4], "utf8"));
const log = console.log; console.log = () => {};
WebAssembly.instantiate(fs.readFileSync(process.argv[3]), go.importObject).then(async (r) => {
  go.run(r.instance);
  for (let i = 0; i < 1000 && typeof parseKuneiform === "undefined"; i++) await new Promise((f) => setTimeout(f, 10));
  const out = [];
  for (const args of cases) {
    let v;
    try { v = parseKuneiform(...args); } catch (e) { v = { thrown: String(e) }; }
    const t = typeof v;
    out.push({ type: t, value: t === "object" ? v : null, text: t === "string" ? v : "", keys: v && t === "object" ? Object.keys(v).sort() : [] });
  }
  fs.writeFileSync(process.argv[5], JSON.stringify(out));
  process.exit(0);
});
setTimeout(() => process.exit(3), 100000);
`

func c23(r *rand.Rand, deadline time.Time, res *result) {
	scratch := os.Getenv("KF_SCRATCH")
	bin := filepath.Join(scratch, "kf.wasm")
	c := exec.Command("go", "build", "-o", bin, "./wasm")
	c.Dir = os.Getenv("KF_REPO")
	c.Env = append(os.Environ(), "GOOS=js", "GOARCH=wasm")
	if b, err := c.CombinedOutput(); err != nil {
		res.Err = "the wasm module does not build: " + string(b)
		return
	}
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		res.Err = "no GOROOT"
		return
	}
	we := filepath.Join(strings.TrimSpace(string(root)), "lib", "wasm", "wasm_exec.js")
	if _, err := os.Stat(we); err != nil {
		we = filepath.Join(strings.TrimSpace(string(root)), "misc", "wasm", "wasm_exec.js")
	}
	g := &gen{r: r}
	cases := [][]string{{}, {"database d;", "x"}, {"database d;", "database e;", "z"}, {""}, {"database d"}}
	for _, t := range corpus() {
		if strings.ToValidUTF8(t, "") == t {
			cases = append(cases, []string{t})
		}
	}
	for i := 0; i < 250; i++ {
		t := strings.ToValidUTF8(g.next(), "?")
		cases = append(cases, []string{t})
		if g.p(0.05) {
			cases = append(cases, []string{t, t})
		}
	}
	in, out, js := filepath.Join(scratch, "in.json"), filepath.Join(scratch, "out.json"), filepath.Join(scratch, "run.js")
	b, _ := json.Marshal(cases)
	os.WriteFile(in, b, 0644)
	os.WriteFile(js, []byte(nodeScript), 0644)
	cmd := exec.Command("node", js, we, bin, in, out)
	if b, err := cmd.CombinedOutput(); err != nil {
		res.Err = "node: " + err.Error() + " " + string(b)
		return
	}
	var got []struct {
		Type  string
		Value map[string]any
		Text  string
		Keys  []string
	}
	ob, _ := os.ReadFile(out)
	if err := json.Unmarshal(ob, &got); err != nil || len(got) != len(cases) {
		res.Err = fmt.Sprint("node gave no answer: ", err)
		return
	}
	for i, args := range cases {
		v := got[i]
		res.Evaluations++
		res.Distinct++
		bad := func(id, f string, a ...any) {
			in, _ := json.Marshal(args)
			res.note(finding{ID: "C23:" + id, What: fmt.Sprintf(f, a...) + " -- arguments: " + string(in), Input: string(in)})
		}
		if v.Value["thrown"] != nil {
			bad("thrown", "the function throws %v", v.Value["thrown"])
			continue
		}
		if len(args) != 1 {
			if v.Type != "string" || v.Text == "" {
				bad("arguments", "%d arguments yield %v", len(args), v)
			}
			continue
		}
		res.sample(args[0])
		if v.Type != "object" {
			bad("type", "the result is no object: %v", v)
			continue
		}
		o := run(args[0], nil, kfparser.Default)
		if o.panicked != nil {
			continue
		}
		if o.err == nil {
			j, _ := o.sch.ToJSON()
			if v.Value["json"] != string(j) || len(v.Keys) != 1 {
				bad("accepted", "fields %v, json %q instead of %q", v.Keys, v.Value["json"], j)
			}
		} else {
			e, _ := v.Value["error"].(string)
			if v.Value["json"] != "" || !strings.Contains(e, strings.ToValidUTF8(o.err.Error(), "\uFFFD")) || len(v.Keys) != 2 {
				bad("rejected", "fields %v, error %q, json %q for the rejection %q", v.Keys, e, v.Value["json"], o.err)
			}
		}
	}
}
