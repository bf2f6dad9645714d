package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

func die(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

type program struct {
	ID  string                   `json:"id"`
	Ops []map[string]interface{} `json:"ops"`
}

func readPrograms(f string) []program {
	fh, err := os.Open(f)
	if err != nil {
		die(err)
	}
	defer fh.Close()
	var out []program
	dec := json.NewDecoder(bufio.NewReader(fh))
	for dec.More() {
		var p program
		if err := dec.Decode(&p); err != nil {
			die("program:", err)
		}
		out = append(out, p)
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		die("usage: harness run|fonts|images|pdf|parallel ...")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prog := fs.String("prog", "", "program file")
	out := fs.String("out", "", "output file")
	res := fs.String("res", "/repo/test/res", "resource directory")
	tmp := fs.String("tmp", os.TempDir(), "scratch directory")
	keep := fs.String("keep", "", "directory to keep outputs in")
	skip := fs.Int("skip", 0, "programs to skip")
	tmo := fs.Int("timeout", 20, "seconds per operation")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "run":
		run(readPrograms(*prog), *out, *res, *tmp, *keep, *skip, *tmo)
	case "parallel":
		parallel(readPrograms(*prog), *out, *res, *tmp)
	case "facts":
		facts(*prog, *out, *res)
	case "pdf":
		b, err := ioutil.ReadFile(fs.Arg(0))
		if err != nil {
			die(err)
		}
		j, _ := json.Marshal(outputEvent(b, []byte(*keep)))
		os.Stdout.Write(append(j, '\n'))
	default:
		die("unknown command", cmd)
	}
}

func run(ps []program, out, res, tmp, keep string, skip, tmo int) {
	fh, err := os.OpenFile(out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		die(err)
	}
	bw := bufio.NewWriterSize(fh, 1<<20)
	emit := func(ev J) {
		b, err := json.Marshal(ev)
		if err != nil {
			die(err)
		}
		bw.Write(b)
		bw.WriteByte('\n')
	}
	for i, p := range ps {
		if i < skip {
			continue
		}
		w := NewWorld(res, tmp)
		w.keep = keep
		emit(J{"op": "Program", "id": p.ID, "d": 0})
		bw.Flush() // so that a crash names the program
		for k, o := range p.Ops {
			done := make(chan J, 1)
			go func() { done <- w.Exec(o) }()
			var ev J
			select {
			case ev = <-done:
			case <-time.After(time.Duration(tmo) * time.Second):
				bw.Flush()
				fmt.Printf("HANG %d %s %d\n", i, p.ID, k)
				os.Exit(3)
			}
			ev["i"] = k
			emit(ev)
			if ev["obs"].(J)["panic"] != "" {
				break
			}
		}
	}
	bw.Flush()
	fh.Close()
}

// parallel runs the programs one by one and then all at once; the digests of the outputs must agree.
func parallel(ps []program, out, res, tmp string) {
	shared := map[string]bool{}
	_ = shared
	digs := func(w *World, p program) (ds []string) {
		for _, o := range p.Ops {
			ev := w.Exec(o)
			if pn := ev["obs"].(J)["panic"].(string); pn != "" {
				return append(ds, "panic: "+pn)
			}
			if e, ok := ev["out"].(J); ok {
				ds = append(ds, e["dig"].(string))
			}
		}
		return
	}
	// programs share the containers made by the program called "setup"
	var setup *program
	var rest []program
	for i := range ps {
		if ps[i].ID == "setup" {
			setup = &ps[i]
		} else {
			rest = append(rest, ps[i])
		}
	}
	mk := func() *World {
		w := NewWorld(res, tmp)
		if setup != nil {
			for _, o := range setup.Ops {
				w.Exec(o)
			}
		}
		return w
	}
	alone := make([][]string, len(rest))
	for i, p := range rest {
		alone[i] = digs(mk(), p)
	}
	base := mk()
	together := make([][]string, len(rest))
	var wg sync.WaitGroup
	start := make(chan int)
	for i := range rest {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := NewWorld(res, tmp)
			w.conts = base.conts
			<-start
			together[i] = digs(w, rest[i])
		}(i)
	}
	close(start)
	wg.Wait()
	fh, err := os.Create(out)
	if err != nil {
		die(err)
	}
	for i, p := range rest {
		b, _ := json.Marshal(J{"op": "Parallel", "id": p.ID, "alone": alone[i], "together": together[i]})
		fh.Write(append(b, '\n'))
	}
	fh.Close()
}

// facts writes what the source files hold: fonts (for the characters asked for), images and PDF pages.
func facts(spec, out, res string) {
	b, err := ioutil.ReadFile(spec)
	if err != nil {
		die(err)
	}
	var q struct {
		Fonts  []string `json:"fonts"`
		Chars  []int    `json:"chars"`
		Images []string `json:"images"`
		Pdfs   []string `json:"pdfs"`
	}
	if err := json.Unmarshal(b, &q); err != nil {
		die(err)
	}
	w := NewWorld(res, "")
	fonts, images, pdfs := []interface{}{}, []interface{}{}, []interface{}{}
	sort.Strings(q.Fonts)
	for _, f := range q.Fonts {
		t, err := ParseTTF(w.bytes(f))
		if err != nil {
			die(f, err)
		}
		fonts = append(fonts, fontInfo(f, t, append([]int{}, q.Chars...)))
	}
	for _, f := range q.Images {
		j, err := srcImage(w.bytes(f))
		if err != nil {
			die(f, err)
		}
		j["name"] = f
		images = append(images, j)
	}
	for _, f := range q.Pdfs {
		pdfs = append(pdfs, J{"name": f, "pages": srcPages(w.bytes(f))})
	}
	j, err := json.Marshal(J{"fonts": fonts, "images": images, "pdfs": pdfs})
	if err != nil {
		die(err)
	}
	if err := ioutil.WriteFile(out, append(j, '\n'), 0644); err != nil {
		die(err)
	}
	_ = strings.TrimSpace
}
