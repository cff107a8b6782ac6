package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/golang/freetype"

var (
	fProp   = flag.String("prop", "", "property id")
	fTier   = flag.String("tier", "", "quick or thorough")
	fRepo   = flag.String("repo", "/repo", "repository")
	fVerif  = flag.String("verif", "/verif", "verification tree")
	fOnly   = flag.String("only", "", "regexp of harness names")
	fBudget = flag.Int("budget", 0, "seconds")
	fV      = flag.Bool("v", false, "verbose")
	fReplay = flag.String("replay", "", "replay file to run against the real code")
	fSelf   = flag.Int("selftest", 0, "rounds of self-test")
	fWork   = flag.Int("workers", 8, "workers")
)

// hdecl is a harness as declared in the sources.
type hdecl struct {
	name  string // function name
	pkg   string // import path
	alias string
	opts  map[string]string
}

type srcFile struct {
	path string // in /verif
	dst  string // virtual path in /repo
	pkg  string
	ext  bool
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if *fSelf > 0 {
		if selfTest(*fSelf, 1) > 0 {
			os.Exit(1)
		}
		return
	}
	start := time.Now()
	tier := *fTier
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier == "" {
		tier = "quick"
	}
	budget := *fBudget
	if budget == 0 {
		budget = 75
		if tier == "thorough" {
			budget = 780
		}
	}
	tmp, err := os.MkdirTemp("", "vengine")
	if err != nil {
		fatalf("%v", err)
	}
	code := 0
	func() {
		defer os.RemoveAll(tmp)
		code = check(*fProp, tier, tmp, budget, start)
	}()
	os.RemoveAll(tmp)
	os.Exit(code)
}

// collect finds the harness sources of a property.
func collect(prop string) (files []srcFile, decls []hdecl, base map[string]string) {
	repo, verif := *fRepo, *fVerif
	base = map[string]string{}
	add := func(dir, dstDir, prefix, pkg string, ext, harness bool) {
		ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		sort.Strings(ms)
		for _, m := range ms {
			dst := filepath.Join(dstDir, prefix+filepath.Base(m))
			base[dst] = m
			if !harness {
				continue
			}
			files = append(files, srcFile{m, dst, pkg, ext})
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, m, nil, parser.ParseComments)
			if err != nil {
				fatalf("%v", err)
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || fd.Type.Params.NumFields() > 0 {
					continue
				}
				n := fd.Name.Name
				if ext && !(len(n) > 1 && n[0] == 'H' && n[1] >= 'A' && n[1] <= 'Z') || !ext && !strings.HasPrefix(n, "ZVerif"+prop+"_") {
					continue
				}
				h := hdecl{name: n, pkg: pkg, opts: map[string]string{}}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if rest, ok := strings.CutPrefix(c.Text, "//vsym:"); ok {
							for _, kv := range strings.Fields(rest) {
								k, v, _ := strings.Cut(kv, "=")
								h.opts[k] = v
							}
						}
					}
				}
				decls = append(decls, h)
			}
		}
	}
	lp := strings.ToLower(prop)
	add(filepath.Join(verif, "harness/vsym"), filepath.Join(repo, "vsym"), "", modPath+"/vsym", true, false)
	add(filepath.Join(verif, "harness/lib"), filepath.Join(repo, "zzverif/lib"), "", modPath+"/zzverif/lib", true, false)
	hd := filepath.Join(verif, "harness", prop)
	add(filepath.Join(hd, "ext"), filepath.Join(repo, "zzverif", lp), "", modPath+"/zzverif/"+lp, true, true)
	add(filepath.Join(hd, "truetype"), filepath.Join(repo, "truetype"), "zzverif_"+lp+"_", modPath+"/truetype", false, true)
	add(filepath.Join(hd, "raster"), filepath.Join(repo, "raster"), "zzverif_"+lp+"_", modPath+"/raster", false, true)
	add(filepath.Join(hd, "freetype"), repo, "zzverif_"+lp+"_", modPath, false, true)
	// shared in-package helpers
	if m, _ := filepath.Glob(filepath.Join(hd, "truetype/*.go")); len(m) > 0 {
		add(filepath.Join(verif, "harness/ttlib"), filepath.Join(repo, "truetype"), "zzverif_lib_", modPath+"/truetype", false, false)
	}
	return
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "GOFLAGS", "GOWORK", "GOPROXY", "GO111MODULE", "CGO_ENABLED", "GOTOOLCHAIN":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=", "GOWORK=off", "GOPROXY=off", "GO111MODULE=on", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOSUMDB=off")
}

func mustCopy(from, to string) {
	b, err := os.ReadFile(from)
	if err == nil {
		err = os.WriteFile(to, b, 0o644)
	}
	if err != nil {
		fatalf("%v", err)
	}
}

// Case is one concrete run of a harness.
type Case struct {
	H  string           `json:"h"`
	In map[string]int64 `json:"in"`
}

// Res is what the real code did.
type Res struct {
	Fails []string `json:"fails"`
	Obs   []string `json:"obs"`
	Panic string   `json:"panic"`
	Skip  bool     `json:"skip"`
	Hang  bool     `json:"hang"`
	Alloc uint64   `json:"alloc"`
	Err   string   `json:"err"`
}

const nativeMain = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	"github.com/golang/freetype/vsym"
%s)

type res struct {
	Fails []string ` + "`json:\"fails\"`" + `
	Obs   []string ` + "`json:\"obs\"`" + `
	Panic string   ` + "`json:\"panic\"`" + `
	Skip  bool     ` + "`json:\"skip\"`" + `
	Hang  bool     ` + "`json:\"hang\"`" + `
	Alloc uint64   ` + "`json:\"alloc\"`" + `
}

var reg = map[string]func(){
%s}

func run(f func(), in map[string]int64) (r res) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	vsym.Reset(in)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if vsym.IsSkip(e) {
					r.Skip = true
				} else {
					r.Panic = fmt.Sprint(e)
				}
			}
		}()
		f()
	}()
	r.Fails, r.Obs = vsym.Result()
	runtime.ReadMemStats(&b)
	r.Alloc = b.TotalAlloc - a.TotalAlloc
	return
}

func main() {
	debug.SetMemoryLimit(4 << 30)
	debug.SetMaxStack(256 << 20)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	w := bufio.NewWriter(os.Stdout)
	limit := 10 * time.Second
	if os.Getenv("VERIF_PATIENT") != "" {
		limit = 60 * time.Second
	}
	for sc.Scan() {
		var c struct {
			H  string           ` + "`json:\"h\"`" + `
			In map[string]int64 ` + "`json:\"in\"`" + `
		}
		json.Unmarshal(sc.Bytes(), &c)
		ch := make(chan res, 1)
		go func() { ch <- run(reg[c.H], c.In) }()
		var r res
		select {
		case r = <-ch:
		case <-time.After(limit):
			r.Hang = true
		}
		b, _ := json.Marshal(r)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
		if r.Hang {
			os.Exit(3)
		}
	}
}
`

type build struct {
	tmp     string
	files   []srcFile
	decls   []hdecl
	base    map[string]string
	dropped []string
}

func (b *build) modfile() string { return filepath.Join(b.tmp, "freetype.mod") }

func (b *build) overlayMap() map[string]string {
	o := map[string]string{}
	for k, v := range b.base {
		o[k] = v
	}
	o[filepath.Join(*fRepo, "go.mod")] = b.modfile()
	return o
}

func (b *build) live() []hdecl {
	var r []hdecl
	for _, d := range b.decls {
		drop := false
		for _, p := range b.dropped {
			if d.pkg == p {
				drop = true
			}
		}
		if !drop {
			r = append(r, d)
		}
	}
	return r
}

// native builds the replay binary.
func (b *build) native() (string, error) {
	var imp, reg strings.Builder
	al := map[string]string{}
	for _, d := range b.live() {
		a := al[d.pkg]
		if a == "" {
			a = "p" + strconv.Itoa(len(al))
			al[d.pkg] = a
			fmt.Fprintf(&imp, "\t%s %q\n", a, d.pkg)
		}
		fmt.Fprintf(&reg, "\t%q: %s.%s,\n", d.name, a, d.name)
	}
	src := filepath.Join(b.tmp, "main.go")
	if err := os.WriteFile(src, []byte(fmt.Sprintf(nativeMain, imp.String(), reg.String())), 0o644); err != nil {
		return "", err
	}
	o := b.overlayMap()
	o[filepath.Join(*fRepo, "zzverif/zzmain/main.go")] = src
	js, _ := json.Marshal(map[string]any{"Replace": o})
	ov := filepath.Join(b.tmp, "overlay.json")
	os.WriteFile(ov, js, 0o644)
	bin := filepath.Join(b.tmp, "native")
	cmd := exec.Command("go", "build", "-buildvcs=false", "-modfile="+b.modfile(), "-overlay="+ov, "-o", bin, "./zzverif/zzmain")
	cmd.Dir = *fRepo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v\n%s", err, out)
	}
	return bin, nil
}

// runNative runs the cases. A run that took too long or whose process died is
// repeated on its own with more time.
func runNative(bin string, cases []Case) []Res {
	res := runNativeOnce(bin, cases, false)
	n := 0
	for i := range res {
		if (res[i].Hang || strings.HasPrefix(res[i].Panic, "process died")) && n < 2 {
			n++
			res[i] = runNativeOnce(bin, cases[i:i+1], true)[0]
		}
	}
	return res
}

func runNativeOnce(bin string, cases []Case, patient bool) []Res {
	res := make([]Res, len(cases))
	i, hangs := 0, 0
	for i < len(cases) {
		if hangs >= 4 { // enough to report; the rest would take too long
			res[i].Err = "not run"
			i++
			continue
		}
		cmd := exec.Command(bin)
		if patient {
			cmd.Env = append(os.Environ(), "VERIF_PATIENT=1")
		}
		w, _ := cmd.StdinPipe()
		r, _ := cmd.StdoutPipe()
		var errb strings.Builder
		cmd.Stderr = &errb
		if err := cmd.Start(); err != nil {
			res[i].Err = err.Error()
			i++
			continue
		}
		go func(cs []Case) {
			bw := bufio.NewWriter(w)
			for _, c := range cs {
				b, _ := json.Marshal(c)
				bw.Write(b)
				bw.WriteByte('\n')
			}
			bw.Flush()
			w.Close()
		}(cases[i:])
		br := bufio.NewReaderSize(r, 1<<20)
		for i < len(cases) {
			l, err := br.ReadString('\n')
			if err != nil {
				if l == "" {
					break
				}
			}
			json.Unmarshal([]byte(l), &res[i])
			i++
			if res[i-1].Hang {
				hangs++
				break
			}
		}
		io.Copy(io.Discard, br)
		err := cmd.Wait()
		if err != nil && i < len(cases) && !(i > 0 && res[i-1].Hang) {
			// the process died on case i (stack overflow, out of memory)
			msg := errb.String()
			if k := strings.IndexByte(msg, '\n'); k > 0 {
				msg = msg[:k]
			}
			res[i].Panic = "process died: " + msg
			i++
		}
	}
	return res
}

// load type-checks the sources and builds SSA.
func (b *build) load() (*ssa.Program, map[string]*ssa.Package, []string) {
	ov := map[string][]byte{}
	for dst, src := range b.overlayMap() {
		x, err := os.ReadFile(src)
		if err != nil {
			fatalf("%v", err)
		}
		ov[dst] = x
	}
	pats := map[string]bool{}
	for _, d := range b.live() {
		pats[d.pkg] = true
	}
	if len(pats) == 0 {
		return nil, nil, []string{"no harness"}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: *fRepo, Env: goEnv(), BuildFlags: []string{"-modfile=" + b.modfile(), "-buildvcs=false"}, Overlay: ov,
	}
	pkgs, err := packages.Load(cfg, sortedKeys(pats)...)
	if err != nil {
		return nil, nil, []string{err.Error()}
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, errs
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	m := map[string]*ssa.Package{}
	for i, p := range pkgs {
		m[p.PkgPath] = sp[i]
		if sp[i] != nil {
			sp[i].Build()
		}
	}
	return prog, m, nil
}

func optInt(h *Harness, k string, def int) int {
	if v, ok := h.opts[k]; ok {
		n, err := strconv.Atoi(v)
		if err == nil {
			return n
		}
	}
	return def
}

// Known is an entry of the known-findings file.
type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Harness  string `json:"harness"`
	Match    string `json:"match"` // regexp on kind + label
	What     string `json:"what"`
	Commit   string `json:"commit"`
}

func check(prop, tier, tmp string, budget int, start time.Time) int {
	b := &build{tmp: tmp}
	mustCopy(filepath.Join(*fVerif, "engine/ft/freetype.mod"), filepath.Join(tmp, "freetype.mod"))
	mustCopy(filepath.Join(*fVerif, "engine/ft/freetype.sum"), filepath.Join(tmp, "freetype.sum"))
	b.files, b.decls, b.base = collect(prop)
	if len(b.decls) == 0 {
		fatalf("no harness for %s", prop)
	}
	if *fReplay != "" {
		return replay(b, *fReplay)
	}
	var notes []string
	// An in-package harness that no longer compiles is dropped: it says
	// nothing about the property.
	type nat struct {
		bin string
		err error
	}
	nch := make(chan nat, 1)
	startNative := func() {
		go func() {
			bin, err := b.native()
			nch <- nat{bin, err}
		}()
	}
	startNative()
	prog, pkgs, errs := b.load()
	nr := <-nch
	if len(errs) > 0 || nr.err != nil {
		ext := false
		for _, d := range b.decls {
			if strings.Contains(d.pkg, "/zzverif/") {
				ext = true
			}
		}
		for _, e := range errs {
			notes = append(notes, "does not compile: "+e)
			fmt.Fprintln(os.Stderr, e)
		}
		if nr.err != nil {
			notes = append(notes, nr.err.Error())
			fmt.Fprintln(os.Stderr, nr.err)
		}
		// drop in-package harnesses and retry
		for _, p := range []string{"truetype", "raster", ""} {
			pk := strings.TrimSuffix(modPath+"/"+p, "/")
			b.dropped = append(b.dropped, pk)
		}
		for dst := range b.base {
			if strings.HasPrefix(filepath.Base(dst), "zzverif_") {
				delete(b.base, dst)
			}
		}
		if ext {
			startNative()
			prog, pkgs, errs = b.load()
			nr = <-nch
		}
		if !ext || len(errs) > 0 || nr.err != nil {
			if nr.err != nil {
				fmt.Fprintln(os.Stderr, nr.err)
			}
			// The code under test cannot be encoded at all: nothing explored.
			fmt.Printf("INCONCLUSIVE property=%s harness does not compile against this tree\n", prop)
			writeEvidence(prop, tier, start, nil, nil, notes, nil, 0, 0, nil, budget)
			return 0
		}
	}
	loadT := time.Since(start)

	only := regexp.MustCompile(*fOnly)
	var hs []*Harness
	for _, d := range b.live() {
		if !only.MatchString(d.name) {
			continue
		}
		if t := d.opts["tier"]; t == "thorough" && tier != "thorough" {
			continue
		}
		h := &Harness{Name: d.name, Pkg: d.pkg, opts: d.opts}
		if tier == "thorough" {
			for k, v := range d.opts {
				if kk, ok := strings.CutPrefix(k, "T"); ok {
					h.opts[kk] = v
				}
			}
		}
		h.fn = pkgs[d.pkg].Func(d.name)
		if h.fn == nil {
			fatalf("harness %s not found", d.name)
		}
		q, hard := 2000, 8000
		if tier == "thorough" {
			q, hard = 5000, 120000
		}
		h.merge = optInt(h, "merge", 1)
		h.steps = optInt(h, "steps", 400000)
		h.qtime = optInt(h, "qtime", q)
		h.htime = optInt(h, "htime", hard)
		h.eager = optInt(h, "eager", 0) != 0
		h.conc = optInt(h, "conc", 0) != 0
		h.stores = optInt(h, "stores", 0) != 0
		h.hang = optInt(h, "hang", 0) != 0
		h.alloc = optInt(h, "alloc", 1<<20)
		h.maxCand = optInt(h, "maxcand", 3)
		h.weight = float64(optInt(h, "weight", 100)) / 100
		h.cands = map[string]*Candidate{}
		h.ncand = map[string]int{}
		h.stats = HStats{Ends: map[string]int64{}, Undecided: map[string]int64{}, Opaque: map[string]int64{}, Reached: map[string]int64{}}
		hs = append(hs, h)
	}
	setTier(prog, pkgs, tier)
	e := &Engine{prog: prog, trackPfx: modPath, maxSamples: 30}
	e.thorough = tier == "thorough"
	eb := time.Duration(budget)*time.Second - loadT
	if eb < 10*time.Second {
		eb = 10 * time.Second
	}
	nw := *fWork
	if n := runtime.NumCPU(); n < nw {
		nw = n
	}
	e.run(hs, nw, eb)
	engT := time.Since(start) - loadT

	// replay every candidate and validate the samples against the real code
	var cases []Case
	var cands []*Candidate
	var smps []*Sample
	for _, h := range hs {
		for _, k := range sortedKeys(h.cands) {
			c := h.cands[k]
			if c.Inputs == nil {
				continue
			}
			cands = append(cands, c)
			cases = append(cases, Case{c.Harness, c.Inputs})
		}
	}
	for _, h := range hs { // results are read in this order
		for _, s := range h.samples {
			smps = append(smps, s)
			cases = append(cases, Case{s.Harness, s.Inputs})
		}
	}
	results := runNative(nr.bin, cases)
	known := loadKnown()
	viol := 0
	validated, mismatched := 0, 0
	type rep struct {
		c *Candidate
		r Res
	}
	seen := map[string]bool{}
	knownSeen := map[string]bool{}
	report := func(c *Candidate, r Res) {
		desc := c.Kind + ": " + c.Msg
		for _, k := range known {
			if k.Property == prop && k.Status == "known" && (k.Harness == "" || k.Harness == c.Harness) && regexp.MustCompile(k.Match).MatchString(desc) {
				c.Known = k.What
				if !knownSeen[k.What] {
					knownSeen[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				}
				return
			}
		}
		viol++
		key := c.Harness + "|" + desc
		if seen[key] || viol > 20 {
			return
		}
		seen[key] = true
		rp := filepath.Join(*fVerif, "evidence", fmt.Sprintf("replay_%s_%d.json", prop, len(seen)))
		js, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": c.Harness, "kind": c.Kind, "message": c.Msg,
			"inputs": c.Inputs, "observed": r, "run": "/verif/check.sh " + prop + " -replay " + rp}, "", " ")
		os.MkdirAll(filepath.Dir(rp), 0o755)
		os.WriteFile(rp, js, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		fmt.Printf("  %s in %s: %s\n", c.Kind, c.Harness, c.Msg)
	}
	old, _ := filepath.Glob(filepath.Join(*fVerif, "evidence", "replay_"+prop+"_*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	spurious := 0
	for i, c := range cands {
		r := results[i]
		ok := false
		switch {
		case r.Err != "" || r.Skip && c.Kind != "assert":
		case r.Skip && len(r.Fails) == 0:
		case c.Kind == "assert":
			for _, f := range r.Fails {
				if f == c.Msg {
					ok = true
				}
			}
			ok = ok || r.Panic != "" || r.Hang
			if !ok && len(r.Fails) > 0 {
				ok = true
			}
		case c.Kind == "hang":
			ok = r.Hang || r.Panic != ""
		default:
			ok = r.Panic != "" || r.Hang || (strings.Contains(c.Msg, "allocation size") && r.Alloc > 1<<20)
		}
		if ok {
			c.Result = "reproduced"
			report(c, r)
		} else {
			c.Result = "not reproduced"
			spurious++
			if *fV {
				fmt.Fprintf(os.Stderr, "NOT REPRODUCED %s %s %s: %+v in=%v\n", c.Harness, c.Kind, c.Msg, r, c.Inputs)
			}
		}
	}
	var shown []any
	for i, s := range smps {
		r := results[len(cands)+i]
		if r.Err != "" {
			continue
		}
		bad := ""
		if r.Panic != "" || r.Hang {
			bad = "panic: " + r.Panic
		} else if len(r.Fails) > 0 {
			bad = "assert: " + r.Fails[0]
		}
		if bad != "" {
			report(&Candidate{Harness: s.Harness, Kind: "native", Msg: bad, Inputs: s.Inputs}, r)
			mismatched++
			if *fV {
				fmt.Fprintf(os.Stderr, "NATIVE FAILURE %s %v %s\n", s.Harness, s.Inputs, bad)
			}
			continue
		}
		if s.Approx {
			continue
		}
		if strings.Join(s.Obs, ";") != strings.Join(r.Obs, ";") || r.Skip {
			mismatched++
			fmt.Fprintf(os.Stderr, "encoding mismatch in %s: inputs %v engine %v native %v skip %v\n", s.Harness, s.Inputs, s.Obs, r.Obs, r.Skip)
			continue
		}
		validated++
		if len(shown) < 5 {
			shown = append(shown, map[string]any{"harness": s.Harness, "inputs": s.Inputs, "observed": s.Obs})
		}
	}
	writeEvidence(prop, tier, start, e, hs, notes, shown, validated, mismatched, cands, budget)
	if *fV {
		for _, h := range hs {
			fmt.Printf("%-34s paths %d done %d asserts %d steps %d t=%.1fs ends %v undecided %v opaque %v reached %v\n", h.Name, h.stats.Paths, h.stats.Done, h.stats.Asserts, h.stats.Steps, h.spent.Seconds(), h.stats.Ends, h.stats.Undecided, h.stats.Opaque, h.stats.Reached)
		}
		for _, l := range theLemmas.proved {
			fmt.Println("lemma", l)
		}
		var sv SolverStats
		for _, w := range e.workers {
			sv.Queries += w.sv.Queries
			sv.Unknown += w.sv.Unknown
			sv.Portfolio += w.sv.Portfolio
			sv.Time += w.sv.Time
		}
		fmt.Printf("load %.1fs engine %.1fs total %.1fs; queries %d unknown %d portfolio %d solver %.1fs; validated %d mismatched %d spurious %d\n", loadT.Seconds(), engT.Seconds(), time.Since(start).Seconds(), sv.Queries, sv.Unknown, sv.Portfolio, sv.Time.Seconds(), validated, mismatched, spurious)
	}
	if viol > 0 {
		return 1
	}
	return 0
}

// setTier is a place for harnesses to learn the tier: vsym.Thorough is an
// intrinsic.
func setTier(prog *ssa.Program, pkgs map[string]*ssa.Package, tier string) {}

func loadKnown() []Known {
	var k []Known
	b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &k); err != nil {
			fatalf("known_findings.json: %v", err)
		}
	}
	return k
}

func replay(b *build, file string) int {
	bin, err := b.native()
	if err != nil {
		fatalf("%v", err)
	}
	x, err := os.ReadFile(file)
	if err != nil {
		fatalf("%v", err)
	}
	var r struct {
		Harness string           `json:"harness"`
		Inputs  map[string]int64 `json:"inputs"`
	}
	json.Unmarshal(x, &r)
	res := runNative(bin, []Case{{r.Harness, r.Inputs}})
	js, _ := json.MarshalIndent(res[0], "", " ")
	fmt.Println(string(js))
	if res[0].Panic != "" || len(res[0].Fails) > 0 || res[0].Hang {
		return 1
	}
	return 0
}

func writeEvidence(prop, tier string, start time.Time, e *Engine, hs []*Harness, notes []string, samples []any, validated, mismatched int, cands []*Candidate, budget int) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var states, trans int64
	cov := map[string]any{}
	funcs := map[string]int{}
	var sv SolverStats
	var br, ck, aq, mg int64
	var per []any
	complete := true
	if e != nil {
		for _, w := range e.workers {
			for f, n := range w.funcs {
				funcs[f.String()] += n
			}
			sv.Queries += w.sv.Queries
			sv.Sat += w.sv.Sat
			sv.Unsat += w.sv.Unsat
			sv.Unknown += w.sv.Unknown
			sv.Portfolio += w.sv.Portfolio
			sv.Time += w.sv.Time
			br += w.nBranches
			ck += w.nChecks
			aq += w.nAssertQ
			mg += w.nMerges
		}
		for _, h := range hs {
			states += h.stats.Paths
			trans += h.stats.Events
			ok := len(h.stats.Undecided) == 0 && h.stats.Done > 0
			for k := range h.stats.Ends {
				if k != "done" && k != "assume" && k != "panic" && !strings.HasPrefix(k, "infeasible") {
					ok = false
				}
			}
			complete = complete && ok
			per = append(per, map[string]any{"harness": h.Name, "paths": h.stats.Paths, "paths_completed": h.stats.Done, "assertions": h.stats.Asserts,
				"instructions": h.stats.Steps, "ends": h.stats.Ends, "undecided": h.stats.Undecided, "float_abstractions": h.stats.Opaque,
				"bounds_fully_explored": ok, "vacuous": h.stats.Done == 0, "options": h.opts, "unexplored": len(h.work)})
		}
	}
	if samples == nil {
		samples = []any{}
	}
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	cov["encoding_mismatches"] = mismatched
	cov["functions_encoded"] = sortedKeys(funcs)
	cov["harnesses"] = per
	cov["bounds_fully_explored"] = complete
	cov["queries"] = map[string]any{"total": sv.Queries, "sat": sv.Sat, "unsat": sv.Unsat, "unknown": sv.Unknown, "portfolio": sv.Portfolio,
		"branch": br, "implicit_checks": ck, "assertion": aq, "merges": mg, "solver_seconds": sv.Time.Seconds()}
	cov["note"] = "states = symbolic paths explored, transitions = decisions taken on them; each path stands for all inputs satisfying its path condition"
	if len(theLemmas.proved) > 0 {
		sort.Strings(theLemmas.proved)
		cov["lemmas"] = theLemmas.proved
	}
	if notes != nil {
		cov["notes"] = notes
	}
	viol, spur := 0, 0
	for _, c := range cands {
		if c.Result == "reproduced" && c.Known == "" {
			viol++
		} else if c.Result != "reproduced" {
			spur++
		}
	}
	cov["counterexamples_not_reproduced"] = spur
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": viol,
		"assumptions": []string{
			"bounds: the ranges, sizes and histories written in the harness sources under /verif/harness/" + prop + " (see DESIGN.md)",
			"go/ssa's translation of the source, the engine's semantics of it (validated against the compiled code on sampled paths) and the SMT solvers are trusted",
			"paths listed with ends other than done/assume/panic/infeasible, and undecided labels, are outside what this run decided"}}
	js, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(*fVerif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), js, 0o644); err != nil {
		fatalf("%v", err)
	}
}
