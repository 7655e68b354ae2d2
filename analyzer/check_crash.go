package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// formatters produce numbers with thousands separators; they are compared with
// reference models that are known not to leave their buffers.
var formatters = []string{"formatNumber", "Int64With", "IntWith", "Int", "Int64", "FloatWith", "Float"}

func init() {
	for _, n := range formatters {
		e := Eq{impl: "format." + n, spec: "ref" + strings.ToUpper(n[:1]) + n[1:]}
		for _, m := range formatters {
			if m != n {
				e.pure = append(e.pure, "format."+m)
			}
		}
		model("format", "C01", e)
	}
	props["C01"] = prop{level: "other", explain: explainCrash + ` Starting points are the goroutines that read the command and the data channel, and the callbacks the library itself installs (metadata loading, reconnecting). Allocations have to be bounded by data that exists, except for the packet buffer, which has the declared size and is read in full.`, run: crashReceive}
	props["C17"] = prop{level: "other", specs: []string{"filter"}, explain: explainCrash + ` Starting points are all exported functions and methods of the data package, apart from the parse tree callbacks (which only run beneath the handler) and functions that panic by contract when misused.`, run: crashFilters}
}

const explainCrash = `Every function that can run beneath the starting points without a panic handler in between is interpreted over all inputs. Each operation that can panic - indexing, slicing, fixed-width reads, division, shifts, allocation sizes, type assertions, nil dereferences, explicit panics, calls with panicking preconditions - has to be shown safe from the conditions it is reached under, from what the called functions guarantee, and from facts about fields established from all their assignments. Functions that cannot be shown safe on their own are judged inside each caller. A handler counts only if it is deferred before anything is called, always recovers, cannot panic itself and assigns an error whenever something was recovered. Every loop beneath the starting points has to have a reason to end. Not covered: exhaustion of stack or memory, endless recursion, cyclic links between XML nodes, fatal runtime errors such as concurrent map access, arguments that break a documented requirement, user callbacks, objects made without their constructor, and the generated parser. Elements of lists of pointers are taken to be not nil; values stored in rows and value expressions are taken to have the Go type that goes with their data type, which the comparisons with reference models establish; texts and buffers are taken to be shorter than 2 GiB.`

func crashRules(c *Check) {
	c.rule("every index, slice bound and fixed-width read lies within the length established on the way to it")
	c.rule("divisors are not zero, shift amounts and allocation sizes not negative")
	c.rule("type assertions without a second result only see values of the asserted type")
	c.rule("pointers, maps and functions are not nil where they are dereferenced, written or called")
	c.rule("explicit panics cannot be reached")
	c.rule("a panic handler is installed before anything is called, always recovers and always leaves an error")
	c.rule("nothing ends the program on purpose")
}

// callbackTargets are the repository functions assigned to function fields of
// the given struct.
func (c *Check) callbackTargets(owner string) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range c.r.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || typeStr(ptrElem(fa.X.Type())) != owner {
					continue
				}
				if _, ok := st.Val.Type().Underlying().(*types.Signature); !ok {
					continue
				}
				var g *ssa.Function
				switch v := st.Val.(type) {
				case *ssa.Function:
					g = v
				case *ssa.MakeClosure:
					g = v.Fn.(*ssa.Function)
				}
				if g = unwrapBound(g); g != nil && !seen[g] {
					seen[g] = true
					out = append(out, g)
				}
			}
		}
	}
	return out
}

func crashReceive(c *Check) {
	k := newCrash(c)
	k.sizes = true
	for _, n := range formatters {
		k.trusted[c.r.fn("format."+n)] = true
	}
	k.typedResults = map[*ssa.Function]bool{}
	for f := c.r.fn("data.(*DataRow).getComputedValue"); f != nil; f = delegate(f) {
		k.typedResults[f] = true
	}
	roots := []*ssa.Function{
		c.r.fn("transport.(*DataSubscriber).runCommandChannelResponseThread"),
		c.r.fn("transport.(*DataSubscriber).runDataChannelResponseThread"),
	}
	crashRules(c)
	c.rule("the number of elements allocated is bounded by the data at hand")
	targets := c.callbackTargets("transport.DataSubscriber")
	c.count("callbacks installed by the library", len(targets))
	c.atLeast("callbacks installed by the library", 8)
	k.run(append(roots, targets...))
	c.loopsEnd(append(roots, targets...))
	c.atLeast("loops", 20)
	c.atLeast("functions", 120)
	c.atLeast("bounds and arithmetic operations", 400)
	c.atLeast("dereferences", 600)
	c.atLeast("allocations", 15)
}

func crashFilters(c *Check) {
	k := newCrash(c)
	for _, n := range formatters {
		k.trusted[c.r.fn("format."+n)] = true
	}
	k.typedResults = map[*ssa.Function]bool{}
	for f := c.r.fn("data.(*DataRow).getComputedValue"); f != nil; f = delegate(f) {
		k.typedResults[f] = true
	}
	asked := map[*ssa.Function]bool{}
	for n := range asks {
		asked[c.r.fn("data."+n)] = true
	}
	walked := c.walked()
	var roots []*ssa.Function
	for _, f := range c.exported("sttp/data") {
		if !asked[f] && !walked[f.Name()] {
			roots = append(roots, f)
		}
	}
	crashRules(c)
	c.count("entry points", len(roots))
	c.atLeast("entry points", 100)
	k.run(roots)
	c.loopsEnd(c.exported("sttp/data"))
	c.atLeast("loops", 20)
	c.atLeast("functions", 150)
	c.atLeast("type assertions", 50)
	c.atLeast("functions whose panics are turned into errors", 2)
}

// asks lists functions that panic by contract when they are used wrongly, with
// what they ask of their caller. They are judged where the library calls them.
var asks = map[string]string{
	"(*DataRow).ValueFast":     "a column index within the row",
	"NewValueExpression":       "a value of the Go type that goes with the value type",
	"(*DataTable).InitColumns": "a length that is not negative",
}

// walked are the methods that the walk over a parse tree calls.
func (c *Check) walked() map[string]bool {
	out := map[string]bool{}
	for _, p := range c.r.prog.AllPackages() {
		if relPath(p.Pkg) != "sttp/data/parser" {
			continue
		}
		for _, n := range p.Pkg.Scope().Names() {
			it, ok := p.Pkg.Scope().Lookup(n).Type().Underlying().(*types.Interface)
			if !ok || !strings.HasSuffix(n, "Listener") {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				out[it.Method(i).Name()] = true
			}
		}
	}
	return out
}

// exported functions of a package, and exported methods of its exported types.
func (c *Check) exported(rel string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.r.funcs {
		o := f.Object()
		if o == nil || !o.Exported() || f.Parent() != nil || f.Blocks == nil || c.r.relPkg(f) != rel {
			continue
		}
		if rv := f.Signature.Recv(); rv != nil {
			t := rv.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok && !n.Obj().Exported() {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}
