package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// extName names a function outside the repository, e.g. "strings.ToUpper",
// "(*sync.Mutex).Lock", "(encoding/binary.bigEndian).Uint32".
func extName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.RelString(nil)
}

var lockNames = map[string]string{
	"(*sync.Mutex).Lock": "W", "(*sync.Mutex).Unlock": "0",
	"(*sync.RWMutex).Lock": "W", "(*sync.RWMutex).Unlock": "0",
	"(*sync.RWMutex).RLock": "R", "(*sync.RWMutex).RUnlock": "0",
}

func isLockName(n string) bool { _, ok := lockNames[n]; return ok }

// purePkgs lists packages whose functions neither modify their operands nor
// depend on hidden state, except for the names in impureNames.
var purePkgs = []string{"strings.", "strconv.", "math.", "math/bits.", "unicode.", "unicode/utf8.", "errors.", "html.",
	"(github.com/shopspring/decimal.Decimal).", "github.com/shopspring/decimal.", "(time.Time).", "(time.Duration).", "(time.Month).",
	"(github.com/google/uuid.UUID).", "regexp.", "(*regexp.Regexp).", "github.com/araddon/dateparse.", "path/filepath.", "slices.Equal", "cmp."}

var pureNames = map[string]bool{
	"fmt.Sprintf": true, "fmt.Errorf": true, "fmt.Sprint": true, "fmt.Sprintln": true,
	"time.Unix": true, "time.Date": true, "time.Parse": true, "time.ParseInLocation": true, "time.ParseDuration": true, "time.UnixMilli": true, "time.UnixMicro": true,
	"github.com/google/uuid.Parse": true, "github.com/google/uuid.FromBytes": true, "github.com/google/uuid.MustParse": true,
	"(encoding/binary.bigEndian).Uint16": true, "(encoding/binary.bigEndian).Uint32": true, "(encoding/binary.bigEndian).Uint64": true,
	"(encoding/binary.littleEndian).Uint16": true, "(encoding/binary.littleEndian).Uint32": true, "(encoding/binary.littleEndian).Uint64": true,
	"net.SplitHostPort": true, "net.JoinHostPort": true, "bytes.Equal": true, "bytes.Compare": true,
	"invoke:Error": true,
}

var impurePrefix = []string{"strings.NewReader", "strings.NewReplacer", "(*strings."}

func isPureExt(n string) bool {
	if pureNames[n] {
		return true
	}
	for _, p := range impurePrefix {
		if strings.HasPrefix(n, p) {
			return false
		}
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

var wordReads = map[string]string{
	"(encoding/binary.bigEndian).Uint16": "be16", "(encoding/binary.bigEndian).Uint32": "be32", "(encoding/binary.bigEndian).Uint64": "be64",
	"(encoding/binary.littleEndian).Uint16": "le16", "(encoding/binary.littleEndian).Uint32": "le32", "(encoding/binary.littleEndian).Uint64": "le64",
}

func nonNilPure(n string) bool {
	n = strings.SplitN(n, "@", 2)[0]
	return n == "errors.New" || n == "fmt.Errorf"
}

func (ip *Interp) callParts(fr *frame, c *ssa.CallCommon) (*MT, []*MT, *ssa.Function, string) {
	var args []*MT
	for _, a := range c.Args {
		args = append(args, ip.use(fr, a))
	}
	if c.IsInvoke() {
		return ip.use(fr, c.Value), args, nil, "invoke:" + c.Method.Name()
	}
	callee := c.StaticCallee()
	name := ""
	if callee != nil {
		if ip.r.isRepoFn(callee) {
			name = shortFn(callee)
		} else {
			name = extName(callee)
		}
	}
	return ip.use(fr, c.Value), args, callee, name
}

func (ip *Interp) call(fr *frame, x *ssa.Call, s *State, pc *MT) *MT {
	fv, args, _, _ := ip.callParts(fr, x.Common())
	rets, npc := ip.callWith(fr, x, x.Common(), fv, args, s, pc)
	n := x.Common().Signature().Results().Len()
	if b, ok := x.Common().Value.(*ssa.Builtin); ok {
		_ = b
		if len(rets) == 1 {
			fr.env[x] = rets[0]
		}
		return npc
	}
	switch {
	case n == 1:
		fr.env[x] = rets[0]
	case n > 1:
		fr.tup[x] = rets
	}
	return npc
}

// callWith performs a call; it updates s in place.
func (ip *Interp) callWith(fr *frame, in ssa.CallInstruction, c *ssa.CallCommon, fv *MT, args []*MT, s *State, pc *MT) ([]*MT, *MT) {
	abs := ip.and(fr.base, pc)
	sig := c.Signature()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ip.builtin(fr, in, b.Name(), c, args, s, abs), pc
	}
	var callee *ssa.Function
	var free []*MT
	if ip.nils && (c.IsInvoke() || c.StaticCallee() == nil) {
		ip.effect(&Effect{kind: "nil", pc: abs, args: []*MT{fv}, instr: in, fn: fr.fn})
	}
	if c.IsInvoke() {
		args = append([]*MT{fv}, args...)
		if fv.atom < 0 && fv.leaf.op == "makeiface" {
			if ct, ok := fv.leaf.x.(types.Type); ok {
				if m := ip.r.prog.LookupMethod(ct, c.Method.Pkg(), c.Method.Name()); m != nil {
					callee = unwrapBound(m)
					if callee == m {
						args[0] = ip.val(fv.leaf.args[0])
					} else {
						callee = nil
					}
				}
			}
		}
	} else {
		callee = c.StaticCallee()
		// resolve closures and function values
		if fv.atom < 0 {
			switch fv.leaf.op {
			case "closure":
				callee = fv.leaf.x.(*ssa.Function)
				for _, b := range fv.leaf.args {
					free = append(free, ip.val(b))
				}
			case "func":
				callee = fv.leaf.x.(*ssa.Function)
			}
		} else if callee == nil {
			// several possible functions: interpret each under its condition
			return ip.callMany(fr, in, c, fv, args, s, pc)
		}
	}
	if callee != nil && ip.onCall != nil {
		if rets, ok := ip.onCall(in, callee, args, s, abs); ok {
			return rets, pc
		}
	}
	if callee != nil && callee.Blocks != nil && (ip.r.isRepoFn(callee) || callee.Synthetic != "") && !ip.recursing(callee) && len(ip.stack) < ip.maxDepth &&
		(ip.opaque == nil || !ip.opaque(callee)) {
		res := ip.run(callee, args, free, s, abs)
		d := s.defers
		*s = *res.st
		s.defers = d
		return res.rets, ip.and(pc, res.pc)
	}
	name := ""
	if callee != nil {
		if ip.r.isRepoFn(callee) {
			name = shortFn(callee)
		} else {
			name = extName(callee)
		}
	} else if c.IsInvoke() {
		name = "invoke:" + c.Method.Name()
	}
	// locks
	if mode, ok := lockNames[name]; ok {
		if ip.det != nil && ip.lockEvents {
			what, evs := name, args[:1:1]
			more, vs := ip.found(s, nil)
			ip.event(s, abs, what+more, append(evs, vs...))
		}
		for a, cnd := range ip.leafConds(args[0]) {
			ip.locks[a] = true
			cell := ip.mk("lockstate", "", nil, a)
			lk := ip.mk("lk", mode, nil)
			if ip.lockClasses {
				cell = ip.mk("lockstate", "", nil, ip.mk("lockname", ip.lockName(a), nil))
				if mode != "0" {
					lk = ip.mk("lk", mode, nil, a)
					// other goroutines may have assigned callbacks in the meantime
					if ms := ip.ownerFuncs(a); len(ms.keys) > 0 {
						ip.havocWith(s, ms, func(ssa.Value) *MT { return nil }, nil)
					}
				}
			}
			held := ip.heldNow(s)
			ip.effect(&Effect{kind: "lock", name: name, pc: ip.and(abs, cnd), args: args, instr: in, fn: fr.fn, held: held, addr: a})
			nv := ip.leafNode(lk)
			old, ok := s.mem[cell]
			if !ok {
				old = ip.leafNode(ip.mk("lk", "0", nil))
			}
			s.mem[cell] = ip.ite(cnd, nv, old)
		}
		return nil, pc
	}
	// atomic booleans
	if strings.HasPrefix(name, "(*github.com/tevino/abool") {
		return ip.abool(fr, in, name, args, s, abs), pc
	}
	if name == "sync/atomic.LoadUint64" || name == "sync/atomic.LoadInt64" || name == "sync/atomic.LoadUint32" || name == "sync/atomic.LoadInt32" {
		v := ip.load(s, args[0], sig.Results().At(0).Type())
		ip.effect(&Effect{kind: "atomicload", name: addrField(args[0]), pc: abs, args: []*MT{args[0], v}, instr: in, fn: fr.fn})
		return []*MT{v}, pc
	}
	if strings.HasPrefix(name, "sync/atomic.Store") || strings.HasPrefix(name, "sync/atomic.Add") {
		t := ptrElem(c.Args[0].Type())
		v := args[1]
		if strings.HasPrefix(name, "sync/atomic.Add") {
			v = ip.apply2(ip.load(s, args[0], t), args[1], func(a, b *Term) *MT { return ip.bin(token.ADD, a, b, t) })
		}
		ip.effect(&Effect{kind: "atomicstore", name: addrField(args[0]), pc: abs, args: []*MT{args[0], v}, instr: in, fn: fr.fn, held: ip.heldNow(s)})
		ip.store(s, args[0], t, v)
		return []*MT{v}, pc
	}
	if isPureExt(name) || ip.det != nil && (name == "time.Now" || name == "time.Since" || nameIn(ip.det.pure, name)) {
		rets := ip.pure(name, args, sig, s, c)
		if ip.obl {
			ip.effect(&Effect{kind: "purecall", name: name, pc: abs, args: args, ret: rets, instr: in, fn: fr.fn, callee: callee})
		}
		return rets, pc
	}
	if wordWidth(name) > 0 && strings.Contains(name, ").Put") {
		ip.effect(&Effect{kind: "call", name: name, pc: abs, args: args, instr: in, fn: fr.fn, callee: callee, held: ip.heldNow(s)})
		ip.putWord(s, name, args)
		return nil, pc
	}
	if ip.builders {
		if rets, ok := ip.builder(name, args, s); ok {
			ip.effect(&Effect{kind: "call", name: name, pc: abs, args: args, ret: rets, instr: in, fn: fr.fn, callee: callee, held: ip.heldNow(s)})
			return rets, pc
		}
	}
	var rets []*MT
	ip.fresh++
	id := strconv.Itoa(ip.fresh)
	base := name
	if base == "" {
		base = "dyn"
	}
	var ver *MT
	if ip.det != nil {
		ev := args
		if callee == nil && !c.IsInvoke() {
			ev = append([]*MT{fv}, args...)
		}
		ename := base
		more, vs := "", []*MT(nil)
		if callee == nil && !c.IsInvoke() {
			more, vs = ip.found(s, nil) // a callback can look at everything
		} else if keys := ip.sees[base]; keys != nil {
			more, vs = ip.found(s, keys)
		}
		ename += more
		ev = append(ev[:len(ev):len(ev)], vs...)
		tok := ip.event(s, abs, ename, ev)
		ver = ip.tokVer(tok, "call")
		for i := 0; i < sig.Results().Len(); i++ {
			rets = append(rets, ip.tokRet(tok, i, sig.Results().At(i).Type()))
		}
	}
	for i := len(rets); i < sig.Results().Len(); i++ {
		rets = append(rets, ip.val(ip.mk("ret", fmt.Sprintf("%s#%s.%d", base, id, i), sig.Results().At(i).Type())))
	}
	kind := "call"
	eargs := args
	if callee == nil && !c.IsInvoke() {
		kind = "dyncall"
		eargs = append([]*MT{fv}, args...)
	}
	ip.effect(&Effect{kind: kind, name: name, pc: abs, args: eargs, ret: rets, instr: in, fn: fr.fn, callee: callee, held: ip.heldNow(s)})
	// forget memory the callee may modify
	if callee != nil && callee.Blocks != nil && ip.r.isRepoFn(callee) {
		ms := ip.modOf(callee, map[*ssa.Function]bool{})
		ip.havocWith(s, ms, func(v ssa.Value) *MT {
			for i, p := range callee.FreeVars {
				if p == v && i < len(free) {
					return free[i]
				}
			}
			return nil
		}, ver)
		// memory reachable through pointer arguments to local objects
		for i, a := range args {
			if i < len(c.Args) || c.IsInvoke() {
				ip.havocArg(s, a, false)
			}
		}
	} else {
		for _, a := range args {
			ip.havocArg(s, a, true)
			if callee != nil && fillsIn(name) {
				ip.fillIn(s, a)
			}
		}
		if kind == "dyncall" {
			// a closure value may modify what it captured
			for _, a := range args {
				_ = a
			}
		}
	}
	return rets, pc
}

// dropTemp forgets the array behind the variadic arguments of an append.
func (ip *Interp) dropTemp(fr *frame, arg ssa.Value, s *State) {
	sl, ok := arg.(*ssa.Slice)
	if !ok {
		return
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Comment != "varargs" || len(*sl.Referrers()) != 1 {
		return
	}
	p := ip.use(fr, al)
	if p.atom >= 0 {
		return
	}
	for a := range s.mem {
		if a != p.leaf && mentions(a, p.leaf) {
			delete(s.mem, a)
		}
	}
}

// copyInto performs a copy and returns the number of elements.
func (ip *Interp) copyInto(fr *frame, in ssa.Instruction, args []*MT, elem types.Type, str bool, s *State, abs *MT) []*MT {
	e := ip.effect(&Effect{kind: "copy", pc: abs, args: args, instr: in, fn: fr.fn, held: ip.heldNow(s)})
	if n, ok := ip.copyElems(s, args, elem, str, abs); ok {
		e.ret = []*MT{n}
		return e.ret
	}
	for t, cnd := range ip.leafConds(args[0]) {
		b := t
		if b.op == "slice" {
			b = b.args[0]
		}
		if ip.det != nil {
			ip.copyOver(s, b, t, args[1], elem, cnd)
			continue
		}
		ip.dropBase(s, b)
	}
	if ip.det != nil {
		e.ret = []*MT{ip.val(ip.mk("copied", "", tInt, ip.asTerm(args[0]), ip.asTerm(args[1])))}
		return e.ret
	}
	r := ip.val(ip.freshTerm("ret", "copy", tInt))
	e.ret = []*MT{r}
	return []*MT{r}
}

// copyOver replaces the elements of b that a copy to its slice t may reach;
// an empty source leaves everything as it was.
func (ip *Interp) copyOver(s *State, b, t *Term, src *MT, elem types.Type, cond *MT) {
	some := ip.apply1(src, func(x *Term) *MT {
		return ip.compare(token.LSS, ip.intTerm(0, tInt), ip.lenOf(x))
	})
	cond = ip.and(cond, some)
	k := "B:" + strconv.Itoa(b.id)
	old := ip.leafNode(ip.verTerm(s, k))
	if v, ok := s.ver[k]; ok {
		old = v
	}
	// contents before the copy, where and what is copied
	nv := ip.newVer("drop", ip.elements(s, b), t, ip.deepMT(s, src), ip.mk("of", ip.srcVer(s, src), nil), ip.verTerm(s, k))
	after := s.clone()
	after.ver[k] = nv
	low := int64(0)
	if t.op == "slice" {
		low, _ = t.args[1].intVal()
	}
	for a, v := range s.mem {
		if a.op != "eaddr" || a.args[0] != b {
			continue
		}
		if i, ok := a.args[1].intVal(); ok && i < low {
			continue
		}
		delete(after.mem, a)
		s.mem[a] = ip.ite(cond, ip.loadMiss(after, a, elem), v)
	}
	s.ver[k] = ip.ite(cond, nv, old)
}

// putWord stores a fixed-width integer at the start of a slice.
func (ip *Interp) putWord(s *State, name string, args []*MT) bool {
	n := wordWidth(name)
	if n == 0 || !strings.Contains(name, ").Put") {
		return false
	}
	u8 := types.Typ[types.Uint8]
	dst, v := args[len(args)-2], args[len(args)-1]
	typ := map[int64]types.Type{2: types.Typ[types.Uint16], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}[n]
	for i := int64(0); i < n; i++ {
		sh := 8 * i
		if strings.Contains(name, "bigEndian") {
			sh = 8 * (n - 1 - i)
		}
		b := ip.apply1(v, func(t *Term) *MT {
			return ip.apply1(ip.bin(token.SHR, t, ip.intTerm(sh, types.Typ[types.Uint]), typ), func(x *Term) *MT { return ip.val(ip.convTerm(x, u8)) })
		})
		for t, cnd := range ip.leafConds(dst) {
			ip.storeLeaf(s, ip.eaddrAt(t, i, u8), u8, b, cnd)
		}
	}
	return true
}

// copyElems copies a known number of elements one by one.
func (ip *Interp) copyElems(s *State, args []*MT, elem types.Type, str bool, abs *MT) (*MT, bool) {
	if args[0].atom >= 0 || args[1].atom >= 0 {
		return nil, false
	}
	d, r := args[0].leaf, args[1].leaf
	if str {
		return nil, false
	}
	ld, lr := ip.lenOf(d), ip.lenOf(r)
	short := ip.theory(abs, ip.compare(token.LSS, lr, ld))
	n := ld
	if short == ip.True {
		n = lr
	} else if short != ip.False {
		return nil, false
	}
	k, ok := n.intVal()
	if !ok || k > 64 {
		return nil, false
	}
	vs := ip.bytesAt(s, r, k, elem)
	for i := int64(0); i < k; i++ {
		ip.storeLeaf(s, ip.eaddrAt(d, i, elem), elem, ip.val(vs[i]), ip.True)
	}
	return ip.val(n), true
}

// builder models strings.Builder contents.
func (ip *Interp) builder(name string, args []*MT, s *State) ([]*MT, bool) {
	if !strings.HasPrefix(name, "(*strings.Builder).") || args[0].atom >= 0 {
		return nil, false
	}
	S := types.Typ[types.String]
	cell := ip.mk("sbcell", "", types.NewPointer(S), args[0].leaf)
	get := func() *MT {
		if v, ok := s.mem[cell]; ok {
			return v
		}
		return ip.loadMiss(s, cell, S)
	}
	add := func(v *MT) {
		n := ip.apply2(get(), v, func(a, b *Term) *MT { return ip.val(ip.cat([]*Term{a, b}, S)) })
		limit := 24
		if ip.det != nil {
			limit = 160
		}
		if len(ip.leavesUnder(n, ip.True)) > limit {
			if ip.det != nil {
				n = ip.val(ip.mk("built", strconv.Itoa(n.id), S))
			} else {
				n = ip.val(ip.freshTerm("ret", "built", S))
			}
		}
		s.mem[cell] = n
	}
	nilE := ip.val(ip.mk("nil", "", nil))
	switch strings.TrimPrefix(name, "(*strings.Builder).") {
	case "WriteString":
		add(args[1])
		return []*MT{ip.apply1(args[1], func(t *Term) *MT { return ip.val(ip.lenOf(t)) }), nilE}, true
	case "Write":
		add(ip.apply1(args[1], func(t *Term) *MT {
			if t.op == "conv" && isString(t.args[0].typ) {
				return ip.val(t.args[0])
			}
			return ip.val(ip.mk("str", ip.elemVer(s, t, types.Typ[types.Byte]), S, t))
		}))
		return []*MT{ip.apply1(args[1], func(t *Term) *MT { return ip.val(ip.lenOf(t)) }), nilE}, true
	case "WriteByte":
		add(ip.apply1(args[1], func(t *Term) *MT {
			if n, ok := t.intVal(); ok && n < 128 {
				return ip.val(ip.constTerm(constant.MakeString(string(rune(n))), S))
			}
			return ip.val(ip.mk("bytestr", "", S, t))
		}))
		return []*MT{nilE}, true
	case "WriteRune":
		add(ip.apply1(args[1], func(t *Term) *MT {
			if n, ok := t.intVal(); ok {
				return ip.val(ip.constTerm(constant.MakeString(string(rune(n))), S))
			}
			return ip.val(ip.mk("conv", "", S, t))
		}))
		return []*MT{ip.val(ip.freshTerm("ret", "n", tInt)), nilE}, true
	case "String":
		return []*MT{get()}, true
	case "Len":
		return []*MT{ip.apply1(get(), func(t *Term) *MT { return ip.val(ip.lenOf(t)) })}, true
	case "Grow":
		return nil, true
	case "Reset":
		s.mem[cell] = ip.zero(S)
		return nil, true
	}
	return nil, false
}

func addrField(m *MT) string {
	if m.atom < 0 && m.leaf.op == "faddr" {
		return m.leaf.str
	}
	return ""
}

// havocArg forgets local objects handed to an unknown callee.
func (ip *Interp) havocArg(s *State, a *MT, external bool) {
	for t := range ip.leafConds(a) {
		var targets []*Term
		switch t.op {
		case "closure":
			// only variables the closure assigns
			if f, ok := t.x.(*ssa.Function); ok {
				for i, x := range t.args {
					if i >= len(f.FreeVars) || assigns(f.FreeVars[i], 0) {
						targets = append(targets, x)
					}
				}
			} else {
				targets = t.args
			}
		case "makeiface":
			targets = t.args
		default:
			targets = []*Term{t}
		}
		for _, x := range targets {
			root := rootOf(x)
			if root.op != "alloc" && root.op != "makeslice" {
				if external && x.typ != nil {
					if sl, ok := x.typ.Underlying().(*types.Slice); ok {
						_ = sl
						b := x
						if b.op == "slice" {
							b = b.args[0]
						}
						ip.dropBase(s, b, ip.asTerm(ip.tokenOr(s)))
					}
				}
				continue
			}
			for c := range s.mem {
				if c.op != "maddr" && c.op != "lockstate" && rootOf(c) == root {
					delete(s.mem, c)
				}
			}
			s.ver["R:"+strconv.Itoa(root.id)] = ip.newVer("arg", ip.asTerm(ip.tokenOr(s)))
		}
	}
}

// fillsIn: the library function may write through pointers it is given.
func fillsIn(name string) bool {
	return !strings.HasPrefix(name, "fmt.") || strings.Contains(name, "can")
}

// fillIn forgets what is stored behind a pointer handed to the library.
func (ip *Interp) fillIn(s *State, a *MT) {
	for x := range ip.leafConds(a) {
		if x.op == "makeiface" {
			// behind an interface with methods the library calls those
			if i, ok := x.typ.Underlying().(*types.Interface); !ok || i.NumMethods() > 0 {
				continue
			}
			x = x.args[0]
		}
		e := ptrElem(x.typ)
		if root := rootOf(x); e == nil || root.op == "alloc" || root.op == "makeslice" || isOpaqueStruct(e) {
			continue
		}
		ms := &modset{keys: map[string]bool{}}
		switch x.op {
		case "faddr":
			ms.keys["F:"+x.str] = true
		case "eaddr":
			ms.keys["E:"+ip.tname(e)] = true
		default:
			ms.keys["T:"+ip.tname(e)] = true
		}
		if st, ok := e.Underlying().(*types.Struct); ok {
			ip.modStruct(e, st, ms)
		}
		ip.havocWith(s, ms, nil, ip.newVer("arg", ip.asTerm(ip.tokenOr(s))))
	}
}

// assigns: more happens to a captured variable than being read.
func assigns(v ssa.Value, depth int) bool {
	if v.Referrers() == nil || depth > 4 {
		return true
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return true
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v && assigns(x.Fn.(*ssa.Function).FreeVars[i], depth+1) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func (ip *Interp) tokenOr(s *State) *MT {
	if ip.det == nil {
		return ip.True
	}
	return ip.token(s)
}

func (ip *Interp) tokRet(tok *MT, i int, typ types.Type) *MT {
	k := strconv.Itoa(i)
	return ip.apply1(tok, func(t *Term) *MT { return ip.val(ip.mk("ret", k, typ, t)) })
}

func (ip *Interp) deepMT(s *State, m *MT) *Term {
	if ip.det == nil {
		return ip.asTerm(m)
	}
	if isBoolMT(ip.World, m) {
		return ip.asTerm(m)
	}
	return ip.asTerm(ip.apply1(m, func(t *Term) *MT { return ip.leafNode(ip.deep(s, t)) }))
}

func (ip *Interp) dropBase(s *State, b *Term, cause ...*Term) {
	for c := range s.mem {
		if c.op == "eaddr" && c.args[0] == b {
			delete(s.mem, c)
		}
	}
	s.ver["B:"+strconv.Itoa(b.id)] = ip.newVer("drop", append(cause, ip.verTerm(s, "B:"+strconv.Itoa(b.id)))...)
}

func (ip *Interp) recursing(f *ssa.Function) bool {
	for _, g := range ip.stack {
		if g == f {
			return true
		}
	}
	return false
}

func (ip *Interp) callMany(fr *frame, in ssa.CallInstruction, c *ssa.CallCommon, fv *MT, args []*MT, s *State, pc *MT) ([]*MT, *MT) {
	conds := ip.leafConds(fv)
	var edges []edgeIn
	var allRets [][]*MT
	var out *MT = ip.False
	var ts []*Term
	for t := range conds {
		ts = append(ts, t)
	}
	for i := range ts {
		for j := i + 1; j < len(ts); j++ {
			if ts[j].id < ts[i].id {
				ts[i], ts[j] = ts[j], ts[i]
			}
		}
	}
	for _, t := range ts {
		p := ip.and(pc, conds[t])
		if ip.and(fr.base, p) == ip.False {
			continue
		}
		s2 := s.clone()
		rets, np := ip.callWith(fr, in, c, ip.leafNode(t), args, s2, p)
		edges = append(edges, edgeIn{np, s2, len(edges)})
		allRets = append(allRets, rets)
		out = ip.or(out, np)
	}
	if len(edges) == 0 {
		undecided("call through an undefined function value in %s", shortFn(fr.fn))
	}
	d := s.defers
	_, m := ip.mergeEdges(edges)
	*s = *m
	s.defers = d
	var rets []*MT
	for i := range allRets[0] {
		v := allRets[len(edges)-1][i]
		for k := len(edges) - 2; k >= 0; k-- {
			v = ip.ite(ip.simplify(edges[k].pc, out), allRets[k][i], v)
		}
		rets = append(rets, v)
	}
	return rets, out
}

func (ip *Interp) abool(fr *frame, in ssa.CallInstruction, name string, args []*MT, s *State, abs *MT) []*MT {
	m := name[strings.LastIndex(name, ".")+1:]
	B := types.Typ[types.Bool]
	get := func() *MT {
		return ip.apply1(args[0], func(a *Term) *MT {
			cell := ip.mk("boolcell", "", types.NewPointer(B), a)
			if v, ok := s.mem[cell]; ok {
				return v
			}
			return ip.loadMiss(s, cell, B)
		})
	}
	set := func(v *MT, cond *MT) {
		ip.effect(&Effect{kind: "store", name: addrField(args[0]), pc: ip.and(abs, cond), args: []*MT{args[0], v}, instr: in, fn: fr.fn, held: ip.heldNow(s)})
		for a, c := range ip.leafConds(args[0]) {
			cell := ip.mk("boolcell", "", types.NewPointer(B), a)
			old, ok := s.mem[cell]
			if !ok {
				old = ip.loadMiss(s, cell, B)
			}
			s.mem[cell] = ip.ite(ip.and(c, cond), v, old)
		}
	}
	switch m {
	case "IsSet", "IsNotSet":
		v := get()
		ip.effect(&Effect{kind: "atomicload", name: addrField(args[0]), pc: abs, args: []*MT{args[0], v}, instr: in, fn: fr.fn})
		if m == "IsNotSet" {
			v = ip.not(v)
		}
		return []*MT{v}
	case "Set":
		set(ip.True, ip.True)
		return nil
	case "UnSet":
		set(ip.False, ip.True)
		return nil
	case "SetTo":
		set(args[1], ip.True)
		return nil
	case "SetToIf":
		old, nv := args[1], args[2]
		cur := get()
		ok := ip.ite(old, cur, ip.not(cur))
		// another goroutine may win: the outcome is its own event
		set(nv, ok)
		return []*MT{ok}
	}
	undecided("unmodelled atomic boolean operation %s", m)
	return nil
}

// pure models an external function without effects.
func (ip *Interp) pure(name string, args []*MT, sig *types.Signature, s *State, c *ssa.CallCommon) []*MT {
	// fixed-width reads: canonical on backing slice and offset
	if w, ok := wordReads[name]; ok {
		return []*MT{ip.apply1(args[1], func(t *Term) *MT {
			return ip.val(ip.wordRead(s, w, t, sig.Results().At(0).Type()))
		})}
	}
	// contents of slice arguments matter
	key := name
	for i, a := range args {
		at := a
		if c != nil {
			var t types.Type
			if i < len(c.Args) {
				t = c.Args[i].Type()
			}
			if t != nil {
				if sl, ok := t.Underlying().(*types.Slice); ok {
					if at.atom < 0 {
						if v := ip.elemVer(s, at.leaf, sl.Elem()); v != "" {
							// variadic interface slices: use their contents
							if els, ok := ip.sliceContents(s, at.leaf); ok {
								t := ip.mk("list", "", nil, els...)
								args = append([]*MT(nil), args...)
								args[i] = ip.leafNode(t)
								continue
							}
							key += "@" + v
						}
					}
				}
			}
		}
	}
	n := 1
	for _, a := range args {
		n *= len(ip.leavesUnder(a, ip.True))
	}
	var rets []*MT
	build := func(ts []*Term) []*MT {
		var out []*MT
		for i := 0; i < sig.Results().Len(); i++ {
			k := key
			if sig.Results().Len() > 1 {
				k += ":" + strconv.Itoa(i)
			}
			if r := ip.foldPure(name, ts, sig.Results().At(i).Type()); r != nil {
				out = append(out, r)
				continue
			}
			out = append(out, ip.val(ip.mk("pure", k, sig.Results().At(i).Type(), ts...)))
		}
		return out
	}
	if n <= 8 || n <= ip.distMax && len(args) <= 2 {
		nres := sig.Results().Len()
		for i := 0; i < nres; i++ {
			var rec func(k int, ts []*Term) *MT
			rec = func(k int, ts []*Term) *MT {
				if k == len(args) {
					return build(ts)[i]
				}
				if isBoolMT(ip.World, args[k]) {
					return rec(k+1, append(append([]*Term(nil), ts...), ip.asTerm(args[k])))
				}
				return ip.apply1(args[k], func(t *Term) *MT { return rec(k+1, append(append([]*Term(nil), ts...), t)) })
			}
			rets = append(rets, rec(0, nil))
		}
		return rets
	}
	var ts []*Term
	for _, a := range args {
		ts = append(ts, ip.asTerm(a))
	}
	return build(ts)
}

// sliceContents lists the elements of a slice over a local array.
// flatList gives the elements of a list built by appends to nothing.
func flatList(t *Term) ([]*Term, bool) {
	switch t.op {
	case "nil":
		return nil, true
	case "list":
		return t.args, true
	case "append1":
		els, ok := flatList(t.args[0])
		return append(append([]*Term(nil), els...), t.args[1:]...), ok
	case "makeslice":
		if n, ok := t.args[0].intVal(); ok && n == 0 {
			return nil, true
		}
	}
	return nil, false
}

func (ip *Interp) sliceContents(s *State, t *Term) ([]*Term, bool) {
	if t.op != "slice" || t.args[0].op != "alloc" {
		return nil, false
	}
	arr, ok := ptrElem(t.args[0].typ).Underlying().(*types.Array)
	if !ok || arr.Len() > 64 {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < arr.Len(); i++ {
		ea := ip.mk("eaddr", "", types.NewPointer(arr.Elem()), t.args[0], ip.intTerm(i, tInt))
		out = append(out, ip.asTerm(ip.loadLeaf(s, ea, arr.Elem())))
	}
	return out, true
}

func (ip *Interp) foldPure(name string, ts []*Term, typ types.Type) *MT {
	str := func(i int) (string, bool) {
		if i < len(ts) && ts[i].isConst() && ts[i].cv.Kind() == constant.String {
			return constant.StringVal(ts[i].cv), true
		}
		return "", false
	}
	mkS := func(x string) *MT { return ip.val(ip.constTerm(constant.MakeString(x), types.Typ[types.String])) }
	for prefix, kind := range map[string]string{"(time.Time).": "time", "(github.com/shopspring/decimal.Decimal).": "decimal", "guid.(Guid).": "guid"} {
		if method, ok := strings.CutPrefix(name, prefix); ok && len(ts) == 2 {
			if r := ip.orderedCall(kind, method, ts[0], ts[1], typ); r != nil {
				return r
			}
		}
	}
	switch name {
	case "guid.Compare", "guid.Equal":
		return ip.orderedCall("guid", strings.TrimPrefix(name, "guid."), ts[0], ts[1], typ)
	case "strings.Compare":
		return ip.orderedCall("string", "Compare", ts[0], ts[1], typ)
	case "(github.com/shopspring/decimal.Decimal).Neg":
		return ip.val(ip.mk("pure", "(github.com/shopspring/decimal.Decimal).Mul", typ, ts[0], ip.mk("pure", "github.com/shopspring/decimal.NewFromInt", typ, ip.intTerm(-1, types.Typ[types.Int64]))))
	case "strings.ToUpper":
		if s, ok := str(0); ok {
			return mkS(strings.ToUpper(s))
		}
	case "strings.ToLower":
		if s, ok := str(0); ok {
			return mkS(strings.ToLower(s))
		}
	case "strings.TrimSpace":
		if s, ok := str(0); ok {
			return mkS(strings.TrimSpace(s))
		}
	case "strings.EqualFold":
		a, ok1 := str(0)
		b, ok2 := str(1)
		if ok1 && ok2 {
			return ip.boolMT(strings.EqualFold(a, b))
		}
		if ts[1].id < ts[0].id {
			return ip.val(ip.mk("pure", name, typ, ts[1], ts[0]))
		}
	case "unicode.ToUpper", "unicode.ToLower":
		if n, ok := ts[0].intVal(); ok {
			r := unicode.ToUpper(rune(n))
			if name == "unicode.ToLower" {
				r = unicode.ToLower(rune(n))
			}
			return ip.val(ip.intTerm(int64(r), typ))
		}
	case "strings.HasPrefix":
		a, ok1 := str(0)
		b, ok2 := str(1)
		if ok1 && ok2 {
			return ip.boolMT(strings.HasPrefix(a, b))
		}
	case "strconv.FormatInt":
		n, ok1 := ts[0].intVal()
		b, ok2 := ts[1].intVal()
		if ok1 && ok2 && b >= 2 && b <= 36 {
			return mkS(strconv.FormatInt(n, int(b)))
		}
	case "strings.Join":
		els, ok1 := flatList(ts[0])
		sep, ok2 := str(1)
		if ok1 && ok2 {
			S := types.Typ[types.String]
			parts := []*Term{ip.constTerm(constant.MakeString(""), S)}
			for i, e := range els {
				if i > 0 {
					parts = append(parts, ip.constTerm(constant.MakeString(sep), S))
				}
				parts = append(parts, e)
			}
			return ip.val(ip.cat(parts, S))
		}
	case "strconv.Itoa":
		if n, ok := ts[0].intVal(); ok {
			return mkS(strconv.FormatInt(n, 10))
		}
	}
	return nil
}

func (ip *Interp) builtin(fr *frame, in ssa.CallInstruction, name string, c *ssa.CallCommon, args []*MT, s *State, abs *MT) []*MT {
	switch name {
	case "len", "cap":
		return []*MT{ip.apply1(args[0], func(t *Term) *MT {
			if name == "len" {
				if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
					return ip.val(ip.mk("len", ip.mapVer(s, c.Args[0].Type()), tInt, t))
				}
				return ip.val(ip.lenOf(t))
			}
			if t.op == "makeslice" {
				return ip.val(ip.mk("cap", "", tInt, t))
			}
			return ip.val(ip.mk("cap", "", tInt, t))
		})}
	case "append":
		st := c.Args[0].Type().Underlying().(*types.Slice)
		ip.effect(&Effect{kind: "append", pc: abs, args: args, instr: in, fn: fr.fn})
		known := true
		r := ip.apply2(args[0], args[1], func(a, b *Term) *MT {
			if b.op == "nil" {
				return ip.val(a)
			}
			if els, ok := ip.sliceContents(s, b); ok {
				return ip.val(ip.mk("append1", "", c.Args[0].Type(), append([]*Term{a}, els...)...))
			}
			known = false
			return ip.val(ip.mk("append", ip.elemVer(s, b, st.Elem()), c.Args[0].Type(), a, b))
		})
		if known && ip.det != nil {
			ip.dropTemp(fr, c.Args[1], s)
		}
		return []*MT{r}
	case "copy":
		elem := types.Type(types.Typ[types.Byte])
		if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			elem = sl.Elem()
		}
		return ip.copyInto(fr, in, args, elem, isString(c.Args[1].Type()), s, abs)
	case "delete":
		ip.effect(&Effect{kind: "delete", pc: abs, args: args, instr: in, fn: fr.fn, held: ip.heldNow(s)})
		for a := range s.mem {
			if a.op == "maddr" {
				delete(s.mem, a)
			}
		}
		s.ver["M:"+ip.tname(c.Args[0].Type())] = ip.newVer("delete", ip.deepMT(s, args[0]), ip.deepMT(s, args[1]), ip.verTerm(s, "M:"+ip.tname(c.Args[0].Type())))
		return nil
	case "close":
		if ip.det != nil {
			ip.event(s, abs, "close", args)
		}
		ip.effect(&Effect{kind: "close", pc: abs, args: args, instr: in, fn: fr.fn, held: ip.heldNow(s)})
		return nil
	case "recover":
		re := ip.effect(&Effect{kind: "recover", pc: abs, instr: in, fn: fr.fn})
		if ip.det != nil {
			return []*MT{ip.val(ip.mk("nil", "", nil))} // nothing to recover on the way of a normal return
		}
		re.ret = []*MT{ip.val(ip.freshTerm("ret", "recover", types.NewInterfaceType(nil, nil)))}
		return re.ret
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = ip.apply2(r, a, func(p, q *Term) *MT {
				lt := ip.compare(token.LSS, p, q)
				if name == "max" {
					lt = ip.not(lt)
				}
				return ip.ite(lt, ip.val(p), ip.val(q))
			})
		}
		return []*MT{r}
	case "print", "println":
		return nil
	case "clear":
		ip.effect(&Effect{kind: "clear", pc: abs, args: args, instr: in, fn: fr.fn})
		s.ver["M:"+ip.tname(c.Args[0].Type())] = ip.newVer("clear", ip.deepMT(s, args[0]), ip.verTerm(s, "M:"+ip.tname(c.Args[0].Type())))
		return nil
	case "ssa:wrapnilchk":
		return []*MT{args[0]}
	}
	undecided("unmodelled builtin %s", name)
	return nil
}
