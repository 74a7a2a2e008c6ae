package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// The instrumenter copies the package and puts a scheduling point before
// every statement. The copies are built through an overlay; /repo is left as
// it is.

// instrument writes the copies into dir and returns the overlay file's path.
// The types of the sync package that are listed are replaced with the ones
// the scheduler knows.
func instrument(repo, dir string, replace map[string]string) (overlay string, points int, err error) {
	cmd := exec.Command("go", "list", "-f", `{{join .GoFiles "\n"}}`, ".")
	cmd.Dir = repo
	out, err := cmd.Output()
	if err != nil {
		return "", 0, fmt.Errorf("go list: %v", err)
	}
	ov := map[string]map[string]string{"Replace": {}}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", 0, err
	}
	for _, name := range strings.Fields(string(out)) {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, filepath.Join(repo, name), nil, 0)
		if err != nil {
			return "", 0, err
		}
		points += instrumentFile(f, replace, firstPoint+points)
		var buf bytes.Buffer
		if err := printer.Fprint(&buf, fset, f); err != nil {
			return "", 0, err
		}
		for _, imp := range f.Imports {
			if imp.Path.Value == `"sync"` && imp.Name == nil {
				buf.WriteString("\nvar _ sync.Locker\n")
			}
		}
		dst := filepath.Join(dir, name)
		if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
			return "", 0, err
		}
		ov["Replace"][filepath.Join(repo, name)] = dst
	}
	dst := filepath.Join(dir, "zz_verif_sched.go")
	if err := os.WriteFile(dst, []byte(strings.ReplaceAll(schedSource, "NPOINTS", fmt.Sprint(firstPoint+points))), 0o644); err != nil {
		return "", 0, err
	}
	ov["Replace"][filepath.Join(repo, "zz_verif_sched.go")] = dst
	b, _ := json.MarshalIndent(ov, "", " ")
	overlay = filepath.Join(dir, "overlay.json")
	return overlay, points, os.WriteFile(overlay, b, 0o644)
}

func pointStmt(id int) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("verifPoint"), Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(id)}}}}
}

// The points of the scheduler's own functions and of the harness.
const firstPoint = 16

func instrumentFile(f *ast.File, replace map[string]string, first int) int {
	n := 0
	list := func(ss []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range ss {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				return ss
			case *ast.EmptyStmt:
				out = append(out, s)
				continue
			}
			out = append(out, pointStmt(first+n), s)
			n++
		}
		return out
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			x.List = list(x.List)
		case *ast.CaseClause:
			x.Body = list(x.Body)
		case *ast.CommClause:
			x.Body = list(x.Body)
		}
		return true
	})
	if len(replace) == 0 {
		return n
	}
	// sync.Pool etc.
	rep := func(e ast.Expr) ast.Expr {
		if s, ok := e.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && id.Name == "sync" && id.Obj == nil {
				if to := replace[s.Sel.Name]; to != "" {
					return ast.NewIdent(to)
				}
			}
		}
		return e
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.ValueSpec:
			if x.Type != nil {
				x.Type = rep(x.Type)
			}
			for i := range x.Values {
				x.Values[i] = rep(x.Values[i])
			}
		case *ast.TypeSpec:
			x.Type = rep(x.Type)
		case *ast.Field:
			x.Type = rep(x.Type)
		case *ast.CompositeLit:
			if x.Type != nil {
				x.Type = rep(x.Type)
			}
		case *ast.StarExpr:
			x.X = rep(x.X)
		case *ast.ArrayType:
			x.Elt = rep(x.Elt)
		case *ast.MapType:
			x.Value = rep(x.Value)
		case *ast.CallExpr:
			for i := range x.Args {
				x.Args[i] = rep(x.Args[i])
			}
		}
		return true
	})
	return n
}

// schedSource is added to the package. Its functions aren't instrumented for
// the race detector, so that handing over the control doesn't synchronize the
// threads in the eyes of the detector.
const schedSource = `package nanomux

import (
	"runtime"
	"sync"
	"sync/atomic"
)

type verifSchedT struct {
	on, free bool
	cur      int32
	n        int32
	step     int64
	at       [8]int64
	to       [8]int32
	na, ai   int
	done     [8]bool
	started  [8]bool
	order    [8]int32 // which of the waiting threads goes on when one ends
	ends     int
	blocks   int64
	limit    uint16 // a statement is a scheduling point for its first executions only
	visits   [4][NPOINTS]uint16
}

var verifS verifSchedT

//go:norace
func verifPoint(id int) {
	if !verifS.on || verifS.free || verifS.ends+1 >= int(verifS.n) {
		return
	}
	var v = &verifS.visits[verifS.cur][id]
	if *v >= verifS.limit {
		return
	}
	*v++
	var s = verifS.step
	verifS.step = s + 1
	if verifS.ai < verifS.na && verifS.at[verifS.ai] == s {
		var to = verifS.to[verifS.ai]
		verifS.ai++
		if to < verifS.n && !verifS.done[to] && to != verifS.cur {
			verifSwitch(to)
		}
	}
}

// VerifPoint is a scheduling point for the handlers of the harness.
//
//go:norace
func VerifPoint() { verifPoint(0) }

//go:norace
func verifSwitch(to int32) {
	var t = verifS.cur
	verifS.cur = to
	for verifS.cur != t && !verifS.free {
		runtime.Gosched()
	}
}

// verifBlocked lets another thread run when the current one cannot go on.
//
//go:norace
func verifBlocked() {
	if !verifS.on || verifS.free {
		runtime.Gosched()
		return
	}
	verifS.blocks++
	var t = verifS.cur
	for i := int32(1); i < verifS.n; i++ {
		var to = (t + i) % verifS.n
		if !verifS.done[to] {
			verifSwitch(to)
			return
		}
	}
	runtime.Gosched()
}

//go:norace
func verifBegin(t int32) {
	for verifS.cur != t && !verifS.free {
		runtime.Gosched()
	}
}

//go:norace
func verifEnd(t int32) {
	verifS.done[t] = true
	var k = verifS.order[verifS.ends&7]
	verifS.ends++
	var next = int32(-1)
	for i := int32(0); i < verifS.n; i++ {
		if !verifS.done[i] {
			if next < 0 || k > 0 {
				if next >= 0 {
					k--
				}
				next = i
			}
		}
	}
	if next >= 0 && !verifS.free {
		verifS.cur = next
	}
}

// VerifSteps returns the current number of steps.
//
//go:norace
func VerifSteps() int64 { return verifS.step }

//go:norace
func VerifFree() { verifS.free = true }

//go:norace
func VerifOn() bool { return verifS.on }

//go:norace
func VerifBlocks() int64 { return verifS.blocks }

//go:norace
func verifSet(n int, first int, at []int64, to []int32, order []int32, limit int) {
	verifS = verifSchedT{on: true, cur: int32(first), n: int32(n), limit: uint16(limit)}
	for i := range at {
		verifS.at[i], verifS.to[i] = at[i], to[i]
	}
	verifS.na = len(at)
	for i := range order {
		verifS.order[i] = order[i]
	}
}

//go:norace
func verifStop() { verifS.on = false }

// VerifRun runs the functions as threads. The thread first starts. Before the
// step at[i] the control is given to the thread to[i].
func VerifRun(bodies []func(), first int, at []int64, to []int32, order []int32, limit int) int64 {
	verifSet(len(bodies), first, at, to, order, limit)
	var chs []chan struct{}
	for i := range bodies {
		var ch = make(chan struct{}, 1)
		chs = append(chs, ch)
		go func(i int, f func()) {
			verifBegin(int32(i))
			f()
			verifEnd(int32(i))
			ch <- struct{}{}
		}(i, bodies[i])
	}
	for _, ch := range chs {
		<-ch
	}
	verifStop()
	return VerifSteps()
}

// ------------------------------------------------------------

type verifItem struct {
	x any
	a *uint32
}

type verifPool struct {
	New   func() any
	items []verifItem
	known bool
}

var verifPools []*verifPool

//go:norace
func VerifResetPools() {
	for _, p := range verifPools {
		p.items = nil
	}
}

//go:norace
func (p *verifPool) pop() (it verifItem) {
	if n := len(p.items); n > 0 {
		it = p.items[n-1]
		p.items = p.items[:n-1]
	}
	return it
}

//go:norace
func (p *verifPool) push(it verifItem) {
	if !p.known {
		p.known = true
		verifPools = append(verifPools, p)
	}
	p.items = append(p.items, it)
}

func (p *verifPool) Get() any {
	verifPoint(1)
	var it = p.pop()
	if it.a != nil {
		atomic.LoadUint32(it.a)
		return it.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *verifPool) Put(x any) {
	if x == nil {
		return
	}
	verifPoint(2)
	var a = new(uint32)
	atomic.StoreUint32(a, 1)
	p.push(verifItem{x, a})
	verifPoint(3)
}

type verifMutex struct{ m sync.Mutex }

func (m *verifMutex) Lock() {
	verifPoint(4)
	for !m.m.TryLock() {
		verifBlocked()
	}
}

func (m *verifMutex) TryLock() bool {
	verifPoint(5)
	return m.m.TryLock()
}

func (m *verifMutex) Unlock() {
	m.m.Unlock()
	verifPoint(6)
}

type verifRWMutex struct{ m sync.RWMutex }

func (m *verifRWMutex) Lock() {
	verifPoint(7)
	for !m.m.TryLock() {
		verifBlocked()
	}
}

func (m *verifRWMutex) RLock() {
	verifPoint(8)
	for !m.m.TryRLock() {
		verifBlocked()
	}
}

func (m *verifRWMutex) TryLock() bool  { verifPoint(9); return m.m.TryLock() }
func (m *verifRWMutex) TryRLock() bool { verifPoint(10); return m.m.TryRLock() }
func (m *verifRWMutex) Unlock()        { m.m.Unlock(); verifPoint(11) }
func (m *verifRWMutex) RUnlock()       { m.m.RUnlock(); verifPoint(12) }

type verifOnce struct {
	done uint32
	m    verifMutex
}

func (o *verifOnce) Do(f func()) {
	verifPoint(13)
	if atomic.LoadUint32(&o.done) == 1 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done == 0 {
		defer atomic.StoreUint32(&o.done, 1)
		f()
	}
}
`
