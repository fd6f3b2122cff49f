package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

func init() {
	if d := os.Getenv("GOVERIF_REPO"); d != "" { // for trying the machinery out
		repoDir = d
	}
	if d := os.Getenv("GOVERIF_DIR"); d != "" {
		verifDir = d
	}
}

var verifDir = "/verif"

const modPath = "github.com/kklash/mnemonikey"
const zzvPath = modPath + "/zzv"

var pkgDirs = map[string]string{"root": ".", "mnemonic": "mnemonic", "pgp": "pgp", "cmd": "cmd/mnemonikey"}

// overlayFiles maps paths inside the repository to specification files of /verif.
func overlayFiles() map[string]string {
	out := map[string]string{}
	for d, rel := range pkgDirs {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "spec", d, "*.go"))
		for _, f := range fs {
			out[filepath.Join(repoDir, rel, "zz_verif_"+filepath.Base(f))] = f
		}
	}
	fs, _ := filepath.Glob(filepath.Join(verifDir, "zzv", "*.go"))
	for _, f := range fs {
		out[filepath.Join(repoDir, "zzv", filepath.Base(f))] = f
	}
	return out
}

type Loaded struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by pkgDirs key
	overlay map[string]string       // active overlay
	dropped map[string]string       // spec file -> compile error
	repoErr string                  // the repository itself does not type-check
}

var posRe = regexp.MustCompile(`^(/[^:]+):`)

func load() (*Loaded, error) {
	l := &Loaded{overlay: overlayFiles(), dropped: map[string]string{}, pkgs: map[string]*ssa.Package{}}
	for try := 0; ; try++ {
		ov := map[string][]byte{}
		for k, f := range l.overlay {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			ov[k] = b
		}
		cfg := &packages.Config{
			Mode:    packages.LoadAllSyntax,
			Dir:     repoDir,
			Overlay: ov,
			Env:     goEnv(),
		}
		pkgs, err := packages.Load(cfg, ".", "./mnemonic", "./pgp", "./cmd/mnemonikey", "./zzv")
		if err != nil {
			return nil, err
		}
		drop := map[string]string{}
		var other []string
		for _, p := range pkgs {
			for _, e := range p.Errors {
				m := posRe.FindStringSubmatch(e.Pos)
				if m != nil {
					if src, ok := l.overlay[m[1]]; ok && !strings.Contains(m[1], "/zzv/") {
						if drop[m[1]] == "" {
							drop[m[1]] = src + ": " + e.Error()
						}
						continue
					}
				}
				other = append(other, e.Error())
			}
		}
		if len(drop) > 0 && try < 20 {
			for k, e := range drop {
				l.dropped[l.overlay[k]] = e
				delete(l.overlay, k)
			}
			continue
		}
		if len(other) > 0 {
			sort.Strings(other)
			l.repoErr = strings.Join(other, "; ")
			return l, nil
		}
		if err := loadWords(pkgs); err != nil {
			return nil, err
		}
		prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		prog.Build()
		l.prog = prog
		for i, p := range pkgs {
			for d, rel := range pkgDirs {
				path := modPath
				if rel != "." {
					path += "/" + rel
				}
				if p.PkgPath == path {
					l.pkgs[d] = spkgs[i]
				}
			}
			if p.PkgPath == zzvPath {
				l.pkgs["zzv"] = spkgs[i]
			}
		}
		for _, d := range []string{"root", "mnemonic", "pgp", "cmd", "zzv"} {
			if l.pkgs[d] == nil {
				return nil, fmt.Errorf("package %s not found", d)
			}
		}
		return l, nil
	}
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOSUMDB=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GO111MODULE=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

func (l *Loaded) newExec() *Exec {
	ex := &Exec{
		prog: l.prog, repo: map[*ssa.Package]bool{}, modPath: modPath,
		obls: map[string]*Obligation{}, reached: map[string]bool{}, opaque: map[string]int{}, loopFails: map[*ssa.BasicBlock]int{}, called: map[string]bool{},
		usedCtr: map[string]bool{}, inlined: map[string]bool{}, trusted: map[string]bool{}, summ: map[string]*Summary{}, noSumm: map[string]bool{},
		qTimeout: 20000, maxPaths: 200000,
		accels: map[string]bool{}, cuts: map[*ssa.BasicBlock]bool{}, notes: map[string]bool{}, modelTypes: sharedModelTypes, loaded: l,
	}
	for _, p := range l.prog.AllPackages() {
		if p.Pkg.Path() == modPath || strings.HasPrefix(p.Pkg.Path(), modPath+"/") {
			ex.repo[p] = true
		}
	}
	return ex
}

var sharedModelTypes = map[string]*types.Named{}

func (ex *Exec) isOverlay(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if v, ok := ex.ovCache[fn]; ok {
		return v
	}
	if ex.ovCache == nil {
		ex.ovCache = map[*ssa.Function]bool{}
	}
	r := false
	if fn.Pos().IsValid() {
		_, r = ex.loaded.overlay[ex.prog.Fset.Position(fn.Pos()).Filename]
	}
	ex.ovCache[fn] = r
	return r
}

// redirect: functions modelled by Go code in the zzv package (name M_<mangled>).
func (ex *Exec) redirect(fn *ssa.Function) *ssa.Function {
	if ex.redirs == nil {
		ex.redirs = map[string]*ssa.Function{}
		pkgs := []string{"zzv"}
		if ex.lemmaPkg == "cmd" { // contracts assumed there and decided by other checks
			pkgs = append(pkgs, "cmd")
		}
		for _, p := range pkgs {
			if pk := ex.loaded.pkgs[p]; pk != nil {
				for n, m := range pk.Members {
					if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "M_") {
						ex.redirs[n] = f
					}
				}
			}
		}
	}
	if ex.bodies[fn.Name()] && ex.isRepoFn(fn) {
		return nil
	}
	return ex.redirs["M_"+mangle(fnKey(fn))]
}

func mangle(s string) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9':
			sb.WriteRune(c)
		default:
			sb.WriteByte('_')
		}
	}
	return sb.String()
}
