package main

import (
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type Property struct {
	ID    string
	Run   func(c *Ctx)
	Expl  string
	Assum []string
}

var registry = map[string]*Property{}

func register(p *Property) { registry[p.ID] = p }

var commonAssum = []string{
	"go/types and golang.org/x/tools/go/ssa represent the source faithfully; the analyser's own transfer functions are trusted",
	"calls that leave the repository are modelled (locks, atomics, sync.Once) or opaque: they may change escaped memory and return anything",
	"integers are unbounded (no wrap-around) except where a rule says otherwise",
}

func main() {
	repo, root := "/repo", "/verif"
	args := []string{}
	for _, a := range os.Args[1:] {
		switch {
		case strings.HasPrefix(a, "-repo="):
			repo = a[6:]
		case strings.HasPrefix(a, "-max="):
			fmt.Sscan(a[5:], &maxSteps)
		case strings.HasPrefix(a, "-root="):
			root = a[6:]
		default:
			args = append(args, a)
		}
	}
	if len(args) == 0 {
		fmt.Println("usage: gosbcheck [-repo=DIR] [-root=DIR] PROPERTY... | all")
		os.Exit(1)
	}
	if args[0] == "all" {
		args = nil
		for id := range registry {
			args = append(args, id)
		}
		sort.Strings(args)
	}
	rc := 0
	cache := map[string]*Program{}
	for _, id := range args {
		if one(repo, root, id, cache) != 0 {
			rc = 1
		}
	}
	os.Exit(rc)
}

type buildConf struct {
	name string
	env  []string
}

func one(repo, root, id string, cache map[string]*Program) (rc int) {
	start := time.Now()
	pr := registry[id]
	if pr == nil {
		fmt.Printf("no check for %s\n", id)
		return 1
	}
	c := newCtx(id)
	c.Tier = "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		c.Tier = "thorough"
	}
	confs := []buildConf{{"host", nil}}
	if c.Tier == "thorough" {
		confs = append(confs, buildConf{"linux/386", []string{"GOOS=linux", "GOARCH=386"}}, buildConf{"windows/amd64", []string{"GOOS=windows", "GOARCH=amd64"}},
			buildConf{"darwin/arm64", []string{"GOOS=darwin", "GOARCH=arm64"}})
	}
	for _, b := range confs {
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.P = nonNil(c.P)
					c.Undecided("internal failure", firstLine(fmt.Sprint(r))+" "+string(debug.Stack()))
				}
			}()
			p := cache[b.name]
			if p == nil {
				var err error
				p, err = load(repo, b.env...)
				if err != nil {
					c.P = nonNil(c.P)
					c.Bad(nil, "load", b.name, token.NoPos, "the repository could not be loaded and type-checked: "+err.Error())
					return
				}
				cache[b.name] = p
			}
			c.P = p
			c.configs = append(c.configs, b.name)
			pr.Run(c)
		}()
	}
	return c.finish(root, pr.Expl, append(append([]string{}, commonAssum...), pr.Assum...), start)
}

func nonNil(p *Program) *Program {
	if p != nil {
		return p
	}
	return &Program{Fset: token.NewFileSet(), Dir: "/"}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

var _ = filepath.Join
