//go:build go1.21 && linux

// Package gen checks the table generator's output.
package gen

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/internal/zzverif/coins"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

type genCase struct {
	Package     string `json:"package"`
	Epochs      int    `json:"epochs"` // -1 leaves the default
	Mix         uint64 `json:"mix"`    // 0 leaves the default
	CacheInit   uint64 `json:"cache_init"`
	CacheGrowth uint64 `json:"cache_growth"`
	DataInit    uint64 `json:"data_init"`
	DataGrowth  uint64 `json:"data_growth"`
	Stale       bool   `json:"stale,omitempty"` // a longer file is there already
	Order       int    `json:"order,omitempty"` // of the arguments
}

// tables reads the size tables of one generated file, after checking that it compiles.
func tables(path string) (pkg string, out map[string][]uint64, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, 0)
	if err != nil {
		return "", nil, fmt.Errorf("the file does not parse: %v", err)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	if _, err := (&types.Config{}).Check(f.Name.Name, fset, []*ast.File{f}, info); err != nil {
		return "", nil, fmt.Errorf("the file does not compile: %v", err)
	}
	out = map[string][]uint64{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			v, ok := s.(*ast.ValueSpec)
			if !ok {
				continue
			}
			for i, n := range v.Names {
				if i >= len(v.Values) {
					continue
				}
				lit, ok := v.Values[i].(*ast.CompositeLit)
				if !ok {
					continue
				}
				if t := info.TypeOf(lit); t == nil || t.String() != "[]uint64" {
					continue
				}
				vals := []uint64{}
				for _, e := range lit.Elts {
					tv, ok := info.Types[e]
					if !ok || tv.Value == nil {
						return "", nil, fmt.Errorf("an element of %s is not a constant", n.Name)
					}
					x, ok := constant.Uint64Val(constant.ToInt(tv.Value))
					if !ok {
						return "", nil, fmt.Errorf("an element of %s is not a size", n.Name)
					}
					vals = append(vals, x)
				}
				out[n.Name] = vals
			}
		}
	}
	return f.Name.Name, out, nil
}

func same(what string, got, want []uint64) error {
	for i := range want {
		if i < len(got) && got[i] != want[i] {
			return fmt.Errorf("%s: epoch %d has size %d, want %d", what, i, got[i], want[i])
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d sizes, want %d", what, len(got), len(want))
	}
	return nil
}

func generate(dir, pkg string, args []string) (map[string][]uint64, error) {
	cmd := exec.Command(os.Getenv("VH_TOOL_GEN_LOOKUP"), args...)
	cmd.Dir = dir
	text, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("gen-lookup %q failed: %v %s", args, err, text)
	}
	p, t, err := tables(filepath.Join(dir, pkg+"_lookup.go"))
	if err != nil {
		return nil, fmt.Errorf("gen-lookup %q: %v", args, err)
	}
	if p != pkg {
		return nil, fmt.Errorf("gen-lookup %q: the file is of package %q", args, p)
	}
	es, err := os.ReadDir(dir)
	vh.Must(err)
	if len(es) != 1 {
		return nil, fmt.Errorf("gen-lookup %q wrote %d files", args, len(es))
	}
	return t, nil
}

var idents = []string{"main", "ethash", "kawpow", "x", "a_b", "lookup2", "Große", "_x", "test", "verylongpackagenamethatgoesonandonandonandon"}

func draw(t *rapid.T) genCase {
	c := genCase{Package: rapid.SampledFrom(idents).Draw(t, "package"), Epochs: rapid.IntRange(0, 60).Draw(t, "epochs")}
	switch rapid.IntRange(0, 9).Draw(t, "many") {
	case 0:
		c.Epochs = rapid.IntRange(61, 600).Draw(t, "epochs")
	case 1:
		c.Epochs = rapid.SampledFrom([]int{-1, 2047, 2048, 2049, 3000}).Draw(t, "epochs")
	}
	c.Mix = rapid.SampledFrom([]uint64{0, 64, 128, 256, 512, 192}).Draw(t, "mix")
	row := c.Mix
	if row == 0 {
		row = 128
	}
	size := func(name string, pair uint64, max uint64) (uint64, uint64) {
		hi := uint64(4) << rapid.IntRange(0, 30).Draw(t, name+".mag")
		if x := vh.Mix(rapid.Uint64().Draw(t, name+".wide")); x%6 == 0 {
			// sizes of all 64 bits
			growth := pair * (vh.Mix(x) >> (20 + vh.Mix(x+1)%30) / pair / 4096)
			return pair * (((1<<60|vh.Mix(x+2))>>(vh.Mix(x+3)%4) - growth*3001) / pair), growth
		}
		return pair * rapid.Uint64Range(2, min(hi, max/pair)).Draw(t, name), pair * rapid.Uint64Range(0, min(hi, max/pair/3000)).Draw(t, name+".growth")
	}
	c.CacheInit, c.CacheGrowth = size("cache", 128, 1<<40)
	c.DataInit, c.DataGrowth = size("data", 2*row, 1<<50)
	if rapid.IntRange(0, 3).Draw(t, "real") == 0 {
		c.CacheInit, c.CacheGrowth, c.DataInit, c.DataGrowth = 1<<24, 1<<17, 1<<30/(2*row)*(2*row), 1<<23/(2*row)*(2*row)
	}
	switch rapid.IntRange(0, 4).Draw(t, "composite") { // the first epoch starts at a pseudoprime or square
	case 0:
		if n := coins.DrawHardRows(t, 15); n > 4 {
			c.CacheInit = (n + 1) * 64
		}
	case 1:
		if n := coins.DrawHardRows(t, 19); n > 4 {
			c.DataInit = (n + 1) * row
		}
	}
	c.Stale = rapid.IntRange(0, 3).Draw(t, "stale") == 0
	c.Order = rapid.IntRange(0, 6).Draw(t, "order")
	return c
}

func TestC28(t *testing.T) {
	vh.Run(t, vh.Prop[genCase]{
		Name: "generated tables", Quick: 1600, Thorough: 30000,
		Rule: "a case counts when at least one epoch was requested",
		Gen:  draw,
		Check: func(c genCase, r *vh.Rec) error {
			dir, err := os.MkdirTemp("", "gen")
			vh.Must(err)
			defer os.RemoveAll(dir)
			var args []string
			n, row := c.Epochs, c.Mix
			arg := func(k string, v uint64) { args = append(args, k, strconv.FormatUint(v, 10)) }
			args = append(args, "-package", c.Package)
			if c.Epochs >= 0 {
				arg("-epochs", uint64(c.Epochs))
			} else {
				n = 2048
				r.Label("default number of epochs")
			}
			if c.Mix > 0 {
				arg("-mixBytes", c.Mix)
			} else {
				row = 128
				r.Label("default mix size")
			}
			arg("-cacheInit", c.CacheInit)
			arg("-cacheGrowth", c.CacheGrowth)
			arg("-datasetInit", c.DataInit)
			arg("-datasetGrowth", c.DataGrowth)
			k := 2 * (c.Order % (len(args) / 2))
			args = append(append([]string{}, args[k:]...), args[:k]...)
			if c.Stale {
				vh.Must(os.WriteFile(filepath.Join(dir, c.Package+"_lookup.go"), []byte("package old\n\n"+strings.Repeat("// old text\n", 40000)), 0644))
				r.Label("replaces a longer file")
			}
			var cache, data []uint64
			for e := 0; e < n; e++ {
				cache = append(cache, ref.SizeAt(c.CacheInit, c.CacheGrowth, 64, uint64(e)))
				data = append(data, ref.SizeAt(c.DataInit, c.DataGrowth, row, uint64(e)))
			}
			got, err := generate(dir, c.Package, args)
			if err != nil {
				return err
			}
			if len(got) != 2 {
				return fmt.Errorf("gen-lookup %q: %d tables", args, len(got))
			}
			if n > 0 {
				r.NonTrivial()
			}
			r.Label("%d epochs in the last row", n%5)
			at := fmt.Sprintf("gen-lookup %q: ", args)
			return vh.FirstErr(same(at+"cache sizes", got["cacheSizes"], cache), same(at+"dataset sizes", got["datasetSizes"], data))
		},
	})
	vh.Run(t, vh.Prop[recorded]{
		Name: "committed tables", Quick: 16, Thorough: 16,
		Rule: "a case counts when a package records how its tables are generated",
		Gen: func(t *rapid.T) recorded {
			all := records()
			if len(all) == 0 {
				return recorded{}
			}
			return all[rapid.IntRange(0, len(all)-1).Draw(t, "package")]
		},
		Check: func(c recorded, r *vh.Rec) error {
			if c.Dir == "" {
				r.Label("none recorded")
				return nil
			}
			r.NonTrivial()
			r.Label("%s", c.Dir)
			dir, err := os.MkdirTemp("", "gen")
			vh.Must(err)
			defer os.RemoveAll(dir)
			pkg := ""
			for i, a := range c.Args {
				if strings.TrimLeft(a, "-") == "package" && i+1 < len(c.Args) {
					pkg = c.Args[i+1]
				}
			}
			got, err := generate(dir, pkg, c.Args)
			if err != nil {
				return err
			}
			_, want, err := tables(filepath.Join(os.Getenv("VH_REPO"), c.Dir, pkg+"_lookup.go"))
			if err != nil {
				return fmt.Errorf("committed tables of %s: %v", c.Dir, err)
			}
			for _, n := range []string{"cacheSizes", "datasetSizes"} {
				if err := same(fmt.Sprintf("committed %s of %s, compared with those of gen-lookup %q", n, c.Dir, c.Args), want[n], got[n]); err != nil {
					return err
				}
			}
			return nil
		},
	})
}

type recorded struct {
	Dir  string   `json:"dir"`
	Args []string `json:"args"`
}

var directive = regexp.MustCompile(`(?m)^//go:generate\s+\S*gen-lookup\s+(.*)$`)

// records finds the parameters that packages record for their tables.
func records() (out []recorded) {
	files, err := filepath.Glob(filepath.Join(os.Getenv("VH_REPO"), "*", "*.go"))
	vh.Must(err)
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, m := range directive.FindAllStringSubmatch(string(b), -1) {
			out = append(out, recorded{filepath.Base(filepath.Dir(f)), strings.Fields(m[1])})
		}
	}
	return
}
