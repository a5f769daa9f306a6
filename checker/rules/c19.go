package rules

import (
	"go/token"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/core"
)

func init() {
	All["C19"] = Check{Spec: true, Run: runC19, Explain: "Every iteration over a map and every mention of a source of chance (time, random numbers, process and environment, goroutines, unsorted directories, addresses) in the packages of the tools is found. An iteration has to be of a form whose result does not depend on the order, or lie in a function that agrees with a reference whose result does not; sources have to lie in such functions. All files of all shapes of suite and configuration are generated twice, with the maps in one order and in the opposite one, and compared; the time of generation may appear in comments only.",
		Assume: []string{familyShapes, slicesValues, typesPure, "encoding/json, text/template and fmt go through maps in the order of their keys", "the references in core/spec do not depend on the order of maps (by inspection)"}}
}

func runC19(c *Ctx) {
	r := c.R
	r.Rule("orders", "what iterations over maps make does not depend on the order of the entries")
	r.Rule("sources", "nothing that changes from run to run is used, but for the time of generation")
	r.Rule("references", "functions that go through maps do what their references do, which do not depend on the order")
	r.Rule("files", "the files generated with the maps in the opposite order are the same")
	r.Rule("date", "the time of generation appears in comments only")
	c.orderReferences("references")
	tools := map[string]bool{}
	for _, t := range []string{"rtcg-gen", "rtcg-make-stms", "rtcg-read-traces"} {
		ps := c.toolPackages(t)
		if len(ps) == 0 {
			r.Undecided("sources", t, "", "the tool was not found")
		}
		for p := range ps {
			tools[p] = true
		}
	}
	loops, n := 0, 0
	for _, f := range c.P.Funcs() {
		p := core.PkgPath(f)
		if core.IsSpec(p) || !tools[p] || f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		followed := c.followed(top) && !strings.HasPrefix(top.Name(), "init")
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				n++
				if rg, ok := i.(*ssa.Range); ok {
					if _, ok := rg.X.Type().Underlying().(*types.Map); ok {
						loops++
						why := ""
						if !followed {
							why = c.orderMatters(f, rg)
						}
						r.Check(why == "", "orders", f.String(), c.P.Pos(i.Pos()), "the result may depend on the order of a map: %s", why)
					}
				}
				if what := chance(i); what != "" {
					r.Check(followed, "sources", f.String()+" "+what, c.P.Pos(i.Pos()), "%s is used outside the functions that were compared with their references", what)
				}
			}
		}
	}
	r.Count("instructions scanned", n)
	r.Count("iterations over maps", loops)
	r.OK("sources", "tools")
	c.bothOrders("files", "date")
}

// orderReferences compares the functions that go through maps (or use the time) with references that do not depend on the order.
func (c *Ctx) orderReferences(rule string) {
	e := absint.EquivOpts{ErrorsOnly: true}
	c.build(rule)
	c.unifyTable(rule)
	c.same(rule, refs{Impl: c.fn("trace", "ExpandAll"), Spec: "ExpandAll", Opaque: []string{"(~trace.Forbidden).Expand"}})
	c.generators(rule, "Gen", "CppDirs", "CppFiles", "Catkin", "Makefile", "Process", "LoadConfig", "Templated", "CreateFile")
	sm, _ := c.setMethods()
	c.same(rule, refs{Impl: sm, Spec: "WireSetMarshal", Opt: e})
	c.same(rule, refs{Impl: c.method("stm/verdict", "Verdict", "MarshalJSON"), Spec: "WireVerdictMarshal|WireVerdictMarshal2", Opt: e})
	c.same(rule, refs{Impl: c.method("stm/verdict", "Verdict", "UnmarshalJSON"), Spec: "WireVerdictUnmarshal", Opt: e})
	c.same(rule, refs{Impl: c.fn("stm", "ReadSuite"), Spec: "WireReadStms", Opt: e, NoCrash: true})
	c.same(rule, refs{Impl: c.fn("validate", "FullSuite"), Spec: "FullSuite", Opaque: []string{"~validate.Full"}, Opt: e})
	c.same(rule, refs{Impl: c.fn("trace", "CollapseAll"), Spec: "CollapseAll", Opaque: []string{"~trace.Collapse"}, Opt: e})
	c.same(rule, refs{Impl: c.method("stm/verdict", "Verdict", "Tests"), Spec: "VerdictTests|VerdictTests2"})
	for _, m := range []string{"Is", "SetOf"} {
		c.same(rule, refs{Impl: c.method("stm/verdict", "Verdict", m), Spec: "Verdict" + m + "|Verdict" + m + "2"})
	}
	c.same(rule, refs{Impl: c.spec("ImplSetValues"), Spec: "SetValues|SetValues2|SetValues3"})
	c.same(rule, refs{Impl: c.spec("ImplGenContext"), Spec: "GenContext|GenContext2", Opaque: []string{"(*~stm.Stm).TransitionSets"}, Opt: absint.EquivOpts{IgnoreCalls: map[string]bool{"time.Now": true}}})
	c.mains(rule, "rtcg-gen", "GenMain|GenMain2|GenMain3|GenMain4")
}

// chance names what an instruction uses that may change from run to run.
func chance(i ssa.Instruction) string {
	switch x := i.(type) {
	case *ssa.Go:
		return "a goroutine"
	case *ssa.Select, *ssa.Send, *ssa.MakeChan:
		return "a channel"
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return "a channel"
		}
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return "an address"
		}
	}
	if ci, ok := i.(ssa.CallInstruction); ok {
		if g := ci.Common().StaticCallee(); g != nil && core.PkgPath(g) == "fmt" {
			for _, a := range ci.Common().Args {
				if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.String(), "%p") {
					return "the format %p"
				}
				for _, t := range printed(a) {
					if addresses(t, 0, map[types.Type]bool{}) {
						return "the printing of addresses in " + t.String()
					}
				}
			}
		}
	}
	for _, op := range i.Operands(nil) {
		switch x := (*op).(type) {
		case *ssa.Function:
			if varies(x.RelString(nil), core.PkgPath(x), x.Name()) {
				return absint.FuncName(x)
			}
		case *ssa.Global:
			if p := x.Pkg.Pkg.Path(); p == "crypto/rand" {
				return p + "." + x.Name()
			}
		}
	}
	if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
		m := ci.Common().Method
		switch m.Name() {
		case "ModTime":
			return "a file's time"
		}
	}
	return ""
}

// printed lists the types of what is passed in a list of any.
func printed(v ssa.Value) (ts []types.Type) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, w := range *ia.Referrers() {
			if st, ok := w.(*ssa.Store); ok {
				if mi, ok := st.Val.(*ssa.MakeInterface); ok {
					ts = append(ts, mi.X.Type())
				}
			}
		}
	}
	return ts
}

// addresses reports whether package fmt prints an address for some value of a type.
func addresses(t types.Type, depth int, busy map[types.Type]bool) bool {
	if busy[t] {
		return false
	}
	busy[t] = true
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "String", "Error", "Format", "GoString":
			return false
		}
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	case *types.Chan, *types.Signature:
		return true
	case *types.Pointer:
		if depth > 0 {
			return true
		}
		switch x.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			return addresses(x.Elem(), depth+1, busy)
		}
		return true
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if addresses(x.Field(i).Type(), depth+1, busy) {
				return true
			}
		}
	case *types.Slice:
		return addresses(x.Elem(), depth+1, busy)
	case *types.Array:
		return addresses(x.Elem(), depth+1, busy)
	case *types.Map:
		return addresses(x.Key(), depth+1, busy) || addresses(x.Elem(), depth+1, busy)
	}
	return false
}

var variesIn = map[string]string{
	"time":          "Now Since Until After AfterFunc Tick NewTimer NewTicker Sleep",
	"os":            "Getpid Getppid Getenv LookupEnv Environ ExpandEnv Hostname Getwd TempDir MkdirTemp CreateTemp Executable UserHomeDir UserCacheDir UserConfigDir Getuid Geteuid Getgid Getegid Getgroups Readlink",
	"path/filepath": "Abs",
	"runtime":       "Caller Callers NumCPU NumGoroutine GOMAXPROCS Stack MemProfile ReadMemStats NumCgoCall Version",
	"maps":          "Keys Values All Collect",
	"reflect":       "",
}

func varies(full, pkg, name string) bool {
	switch pkg {
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash", "os/user", "os/exec", "runtime/debug", "runtime/metrics", "syscall", "net", "expvar", "golang.org/x/exp/maps":
		return name != "init"
	}
	for _, n := range strings.Fields(variesIn[pkg]) {
		if name == n && !strings.HasPrefix(full, "(") {
			return true
		}
	}
	switch full {
	case "(*os.File).Readdir", "(*os.File).ReadDir", "(*os.File).Readdirnames", "(reflect.Value).MapKeys", "(reflect.Value).MapRange", "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).UnsafeAddr",
		"(*sync.Map).Range", "(*sync.Pool).Get", "(*sync.WaitGroup).Go":
		return true
	}
	return false
}

// bothOrders compares what is generated with maps in one order and in the opposite one, and looks for the time of generation.
func (c *Ctx) bothOrders(rule, date string) {
	r := c.R
	ms, _ := c.family()
	back := make([]*member, len(ms))
	parallel(len(ms), func(i int) {
		m := ms[i]
		if m.err != "" {
			return
		}
		defer func() {
			if x := recover(); x != nil {
				back[i] = nil
			}
		}()
		b := c.familyMember(m.Suite, m.Config, m.Variant, true)
		if b.st != nil && b.err == "" {
			c.collect(b, map[string]map[string]bool{})
		}
		back[i] = b
	})
	files := 0
	for i, m := range ms {
		if m.err != "" {
			r.Undecided(rule, m.Name, "", "what is generated cannot be told: %s", m.err)
			continue
		}
		b := back[i]
		if b == nil || b.err != "" {
			r.Undecided(rule, m.Name, "", "what is generated with the maps backwards cannot be told")
			continue
		}
		other := map[string]*genFile{}
		for _, f := range b.files {
			other[f.Path] = f
		}
		r.Check(len(other) == len(m.files), rule, m.Name, "", "%d files instead of %d", len(other), len(m.files))
		for _, f := range m.files {
			files++
			g := other[f.Path]
			if g == nil {
				r.Bad(rule, path.Base(f.Path), f.Pos, "%s is only generated in one of the orders (shape %s)", f.Path, m.Name)
				continue
			}
			a, z := f.text(), g.text()
			if a != z || f.From != g.From {
				line := 1
				for as, zs := strings.Split(a, "\n"), strings.Split(z, "\n"); line <= len(as) && line <= len(zs) && as[line-1] == zs[line-1]; line++ {
				}
				at := f.at(line)
				r.Bad(rule, path.Base(f.Path)+" "+at, at, "line %d of %s depends on the order of a map (shape %s)", line, f.Path, m.Name)
			} else {
				r.OK(rule, m.Name+" "+f.Path)
			}
			for _, line := range dateOutside(f) {
				at := f.at(line)
				r.Bad(date, path.Base(f.Path)+" "+at, at, "the time of generation is in line %d of %s, outside comments (shape %s)", line, f.Path, m.Name)
			}
			r.OK(date, m.Name+" "+f.Path)
		}
	}
	r.Count("generated files compared", files)
	r.Count("shapes of suite, configuration and variant", len(ms))
}

// dateOutside lists the lines of a file that have the time of generation outside comments.
func dateOutside(f *genFile) (lines []int) {
	text := f.text()
	ext := path.Ext(f.Path)
	cxx := ext == ".cpp" || ext == ".h" || ext == ".hpp" || ext == ".cc"
	block, line := false, 1
	for i := 0; i < len(text); i++ {
		rest := text[i:]
		switch {
		case rest[0] == '\n':
			line++
		case block:
			if strings.HasPrefix(rest, "*/") {
				block = false
				i++
			}
		case cxx && strings.HasPrefix(rest, "/*"):
			block = true
			i++
		case cxx && strings.HasPrefix(rest, "//"), !cxx && rest[0] == '#':
			j := strings.IndexByte(rest, '\n')
			if j < 0 {
				return
			}
			if k := strings.TrimRight(rest[:j], " \t"); !strings.HasSuffix(k, "\\") {
				i += j - 1
			}
		case cxx && (rest[0] == '"' || rest[0] == '\''):
			q := rest[0]
			j := 1
			for ; j < len(rest) && rest[j] != q && rest[j] != '\n'; j++ {
				if rest[j] == '\\' {
					j++
				}
			}
			if j < len(rest) && strings.Contains(rest[:j], timeText) {
				lines = append(lines, line)
			}
			if j < len(rest) && rest[j] == q {
				i += j
			}
		case strings.HasPrefix(rest, timeText):
			lines = append(lines, line)
			i += len(timeText) - 1
		}
	}
	return lines
}

// orderMatters tells why the result of an iteration over a map may depend on the order, or "". The entries have to be
// put under their own keys into other maps, collected and sorted, counted, looked for, or checked.
func (c *Ctx) orderMatters(f *ssa.Function, rg *ssa.Range) string {
	var nx *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok && nx == nil {
			nx = n
		} else if _, ok := u.(*ssa.DebugRef); !ok {
			return "the iterator is used in several places"
		}
	}
	if nx == nil {
		return ""
	}
	var key ssa.Value
	for _, u := range *nx.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == 1 {
			key = e
		}
	}
	head := nx.Block()
	in := map[*ssa.BasicBlock]bool{head: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if !in[b] && head.Dominates(b) {
			in[b] = true
			for _, p := range b.Preds {
				back(p)
			}
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			back(p)
		}
	}
	inside := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && in[i.Block()]
	}
	local := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Slice:
				v = x.X
			case *ssa.Alloc:
				return in[x.Block()]
			case *ssa.MakeMap:
				return in[x.Block()]
			case *ssa.MakeSlice:
				return in[x.Block()]
			default:
				return false
			}
		}
	}
	isKey := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.ChangeType:
				v = x.X
			case *ssa.Convert:
				v = x.X
				if t, ok := x.X.Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsString == 0 {
					return false
				}
			default:
				return key != nil && v == key
			}
		}
	}
	constant := func(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }
	order := map[*ssa.Phi]bool{}
	changes, left := false, ""
	filled := map[ssa.Value]bool{} // maps written in the loop under other keys or with values that are not fixed
	for b := range in {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Phi:
				if b != head {
					continue // starts afresh for each entry, or is followed from the head
				}
				why, list := carried(x, in, head)
				if why != "" {
					return why
				}
				if list {
					order[x] = true
				}
			case *ssa.Store:
				if !local(x.Addr) {
					changes = true
				}
				if local(x.Addr) || constant(x.Val) && !inside(x.Addr) {
					continue
				}
				return "something is stored"
			case *ssa.MapUpdate:
				if inside(x.Map) && !local(x.Map) {
					return "a map that depends on the entry is changed"
				}
				switch {
				case local(x.Map):
				case constant(x.Value):
					changes = true
				case isKey(x.Key):
					filled[x.Map] = true
				default:
					return "entries are put under keys that may be the same for several entries"
				}
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.Panic:
				return "calls in the loop are not followed"
			case ssa.CallInstruction:
				if why := c.orderlyCall(x, isKey, local); why != "" {
					return why
				}
			}
		}
	}
	for b := range in {
		for _, i := range b.Instrs {
			if x, ok := i.(*ssa.Lookup); ok && filled[x.X] && !isKey(x.Index) {
				return "a map is read while it is filled"
			}
			if x, ok := i.(*ssa.Range); ok && filled[x.X] {
				return "a map is read while it is filled"
			}
		}
		for k, s := range b.Succs {
			if b == head && k > 0 {
				continue // all entries were visited
			}
			if !in[s] {
				why, with := leavesEarly(s, b)
				if why != "" {
					return why
				}
				if with != "" && (len(filled) > 0 || changes || left != "" && left != with) {
					return "the loop is left early"
				}
				if with != "" {
					left = with
				}
			}
		}
	}
	for x := range order {
		if !sortedAfter(x, in) {
			return "a list is made in the order of the map and not sorted"
		}
	}
	return ""
}

// carried tells what a variable carries from entry to entry: nothing that depends on their order ("", false), or a list ("", true).
func carried(x *ssa.Phi, in map[*ssa.BasicBlock]bool, head *ssa.BasicBlock) (why string, list bool) {
	var fixed *ssa.Const
	kind := ""
	set := func(k string) bool {
		if kind != "" && kind != k {
			return false
		}
		kind = k
		return true
	}
	seen := map[ssa.Value]bool{x: true}
	var dep func(v ssa.Value, d int) bool // whether v may depend on x
	dep = func(v ssa.Value, d int) bool {
		if v == ssa.Value(x) {
			return true
		}
		i, ok := v.(ssa.Instruction)
		if !ok || !in[i.Block()] {
			return false
		}
		if d > 30 {
			return true
		}
		if _, ok := v.(*ssa.Next); ok {
			return false
		}
		for _, o := range i.Operands(nil) {
			if *o != nil && dep(*o, d+1) {
				return true
			}
		}
		return false
	}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == ssa.Value(x) || seen[v] {
			return true
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Const:
			if fixed != nil && fixed.String() != y.String() {
				return false
			}
			fixed = y
			return set("fixed")
		case *ssa.Phi:
			if !in[y.Block()] {
				return false
			}
			for _, e := range y.Edges {
				if !walk(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			switch y.Op {
			case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
				if b, ok := y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					if dep(y.X, 0) == dep(y.Y, 0) {
						return false
					}
					next := y.X
					if dep(y.Y, 0) {
						next = y.Y
					}
					return set("count"+y.Op.String()) && walk(next)
				}
			}
		case *ssa.Call:
			if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && !dep(y.Call.Args[1], 0) {
				return set("list") && walk(y.Call.Args[0])
			}
		}
		return false
	}
	for k, e := range x.Edges {
		if in[head.Preds[k]] && !walk(e) {
			return "a value is carried from one entry to the next", false
		}
	}
	if kind == "list" {
		return "", true
	}
	// what is carried may only be used to carry it on
	for v := range seen {
		if v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			if uv, ok := u.(ssa.Value); ok && seen[uv] || !in[u.Block()] {
				continue
			}
			if _, ok := u.(*ssa.DebugRef); ok {
				continue
			}
			if _, ok := v.(*ssa.Const); ok {
				continue
			}
			return "a value is carried from one entry to the next", false
		}
	}
	return "", false
}

// leavesEarly tells why leaving the loop early matters: it has to be for an error, or with the same result for all entries.
func leavesEarly(b, from *ssa.BasicBlock) (why, with string) {
	vals := map[ssa.Value]ssa.Value{}
	for n := 0; n < 4; n++ {
		for _, i := range b.Instrs {
			if p, ok := i.(*ssa.Phi); ok {
				for k, q := range b.Preds {
					if q == from {
						vals[p] = p.Edges[k]
					}
				}
			}
		}
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			rs := x.Results
			with = "return "
			if k := len(rs) - 1; k >= 0 && types.Identical(rs[k].Type(), types.Universe.Lookup("error").Type()) {
				if cv, ok := rs[k].(*ssa.Const); !ok || !cv.IsNil() {
					return "", "" // fails
				}
			}
			for _, v := range rs {
				for vals[v] != nil {
					v = vals[v]
				}
				with += v.String() + ";"
				if _, ok := v.(*ssa.Const); !ok {
					return "the loop is left with a result that depends on the entry", ""
				}
			}
			return "", with
		case *ssa.Jump:
			from, b = b, b.Succs[0]
		default:
			return "the loop is left early", ""
		}
	}
	return "the loop is left early", ""
}

// sortedAfter reports whether a list is sorted before anything but its length is used.
func sortedAfter(x *ssa.Phi, in map[*ssa.BasicBlock]bool) bool {
	vs := map[ssa.Value]bool{x: true}
	for changed := true; changed; {
		changed = false
		for v := range vs {
			for _, u := range *v.Referrers() {
				switch y := u.(type) {
				case *ssa.MakeInterface, *ssa.ChangeType:
					if !vs[y.(ssa.Value)] {
						vs[y.(ssa.Value)] = true
						changed = true
					}
				}
			}
		}
	}
	var at ssa.Instruction
	for v := range vs {
		for _, u := range *v.Referrers() {
			if ci, ok := u.(*ssa.Call); ok && !in[u.Block()] && ci.Call.StaticCallee() != nil && total(ci) {
				at = u
			}
		}
	}
	if at == nil {
		return false
	}
	for v := range vs {
		for _, u := range *v.Referrers() {
			switch y := u.(type) {
			case *ssa.DebugRef, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Phi:
				continue
			case *ssa.Call:
				if bi, ok := y.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap" || bi.Name() == "append" && in[y.Block()]) {
					continue
				}
			}
			if u == at {
				continue
			}
			if mc, ok := u.(*ssa.MakeClosure); ok && mc.Block() == at.Block() {
				continue
			}
			if !at.Block().Dominates(u.Block()) {
				return false
			}
			if at.Block() == u.Block() {
				for _, i := range u.Block().Instrs {
					if i == u {
						return false
					}
					if i == at {
						break
					}
				}
			}
		}
	}
	return true
}

// total reports whether a call sorts by a total order.
func total(ci *ssa.Call) bool {
	switch n := absint.FuncName(ci.Call.StaticCallee()); {
	case n == "sort.Strings", n == "sort.Ints", n == "slices.Sort", strings.HasPrefix(n, "slices.Sort["):
		return true
	}
	return false
}

// orderlyCall tells why a call in a loop may matter.
func (c *Ctx) orderlyCall(ci ssa.CallInstruction, isKey, local func(ssa.Value) bool) string {
	cc := ci.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len", "cap", "append", "min", "max":
			return ""
		case "delete":
			if isKey(cc.Args[1]) {
				return ""
			}
		}
		return bi.Name() + " is called for each entry"
	}
	f := cc.StaticCallee()
	if f == nil {
		return "an unknown function is called for each entry"
	}
	if c.effectFree(f, map[*ssa.Function]bool{}) {
		return ""
	}
	return absint.FuncName(f) + " is called for each entry"
}

// effectFree reports whether a function changes nothing that it did not make.
func (c *Ctx) effectFree(f *ssa.Function, busy map[*ssa.Function]bool) bool {
	if busy[f] {
		return true
	}
	busy[f] = true
	if !c.P.InModule(core.PkgPath(f)) {
		switch core.PkgPath(f) {
		case "strings", "strconv", "errors", "path", "path/filepath", "unicode", "unicode/utf8", "cmp":
			n := absint.FuncName(f)
			return !strings.HasPrefix(n, "(*") && f.Name() != "Walk" && f.Name() != "Glob" && f.Name() != "WalkDir" && f.Name() != "Abs" && f.Name() != "EvalSymlinks"
		case "fmt":
			return strings.HasPrefix(f.Name(), "Sprint") || f.Name() == "Errorf"
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if !ownMemory(x.Addr) {
					return false
				}
			case *ssa.MapUpdate:
				if !ownMemory(x.Map) {
					return false
				}
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.Panic, *ssa.Range:
				return false
			case ssa.CallInstruction:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "append", "min", "max":
						continue
					}
					return false
				}
				g := x.Common().StaticCallee()
				if g == nil || !c.effectFree(g, busy) {
					return false
				}
			}
		}
	}
	return len(f.Blocks) > 0
}

// ownMemory reports whether an address lies in something the function made.
func ownMemory(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return true
		default:
			return false
		}
	}
}
