package c25

import (
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
)

// finish runs a program and asserts that it leaves exactly the values want on
// the stack.
func finish(h *lib.Hint, prog []byte, want []int) {
	n := len(want)
	m := lib.Max(n, 1)
	if m > 10 {
		m = 10
	}
	h.Contours = [][]lib.XY{lib.Row(m + 1)}
	h.Prog = lib.Cat(prog, []byte{0x24}, lib.ToY(0))
	for i := 0; i < n && i < 10; i++ {
		h.Prog = append(h.Prog, lib.ToY(1+i)...)
	}
	ps := h.MustLoad()
	vsym.Assert(int(ps[0].Y) == n, "how much code ran")
	for i := 0; i < n && i < 10; i++ {
		vsym.Assert(int(ps[1+i].Y) == want[n-1-i], "which code ran")
	}
}

// data is a push instruction of a kind, with any data, and the values it pushes.
func data(kind int) ([]byte, []int) {
	n := []int{1, 2, 8, 0, 1, 3, 1, 2, 8, 1, 2}[kind]
	word := kind >= 6
	var p []byte
	switch {
	case kind < 3:
		p = []byte{byte(0xb0 + n - 1)}
	case kind < 6:
		p = []byte{0x40, byte(n)}
	case kind < 9:
		p = []byte{byte(0xb8 + n - 1)}
	default:
		p = []byte{0x41, byte(n)}
	}
	var vs []int
	for i := 0; i < n; i++ {
		if word {
			v := vsym.Int("w", -0x8000, 0x7fff)
			p = append(p, byte(v>>8), byte(v))
			vs = append(vs, v)
		} else {
			v := vsym.U8("b")
			p = append(p, v)
			vs = append(vs, int(v))
		}
	}
	return p, vs
}

const nData = 11

// HIf: one IF with any condition, with or without ELSE, and any data pushed.
//
//vsym:merge=3
func HIf() {
	c := vsym.Int("condition", -0x8000, 0x7fff)
	a, va := data(vsym.Choice("then", nData))
	b, vb := data(vsym.Choice("else", nData))
	d, vd := data(5)
	prog := lib.Cat(lib.Push(c), []byte{0x58}, a)
	want := va
	if c == 0 {
		want = nil
	}
	if vsym.Choice("has else", 2) == 1 {
		prog = lib.Cat(prog, []byte{0x1b}, b)
		if c == 0 {
			want = vb
		}
	}
	prog = lib.Cat(prog, []byte{0x59}, d)
	finish(&lib.Hint{}, prog, append(append([]int{}, want...), vd...))
}

// block is code with nested IFs to a depth, and what it pushes.
func block(depth, shape int, live bool) ([]byte, []int) {
	p, v := data([]int{0, 4, 7, 9, 3}[(shape+depth)%5])
	if depth == 0 {
		return p, v
	}
	c := vsym.Bool("condition")
	run := live && c
	other := live && !c
	a, va := block(depth-1, shape/3, run)
	p = lib.Cat(p, lib.Push(vsym.If(c, 1, 0)), []byte{0x58}, a)
	if run {
		v = append(v, va...)
	}
	switch shape % 3 {
	case 0: // no ELSE
	case 1:
		b, vb := data(5)
		p = lib.Cat(p, []byte{0x1b}, b)
		if other {
			v = append(v, vb...)
		}
	case 2: // nested in both
		b, vb := block(depth-1, shape/3+1, other)
		p = lib.Cat(p, []byte{0x1b}, b)
		if other {
			v = append(v, vb...)
		}
	}
	e, ve := data(0)
	return lib.Cat(p, []byte{0x59}, e), append(v, ve...)
}

// HNested: IFs nested in the branches of IFs.
//
//vsym:merge=3
func HNested() {
	p, v := block(vsym.If(vsym.Thorough(), 3, 2), vsym.Choice("shape", vsym.If(vsym.Thorough(), 27, 9)), true)
	finish(&lib.Hint{}, p, v)
}

// HFunctionIf: IFs within a function, called from within an IF.
//
//vsym:merge=3
func HFunctionIf() {
	p, v := block(2, vsym.Choice("shape", 9), true)
	h := &lib.Hint{Fpgm: lib.Cat(lib.Push(3), []byte{0x2c}, p, []byte{0x2d})}
	d, vd := data(5)
	finish(h, lib.Cat(lib.Push(1), []byte{0x58}, lib.Push(3), []byte{0x2b, 0x1b}, d, []byte{0x59}, d), append(v, vd...))
}

// HJump: jumps forward past a number of instructions.
//
//vsym:merge=3
func HJump() {
	n := 1 + vsym.Choice("offset", 9)
	c := vsym.Int("condition", -0x8000, 0x7fff)
	a, va := data(4)
	jump := true
	var prog []byte
	switch vsym.Choice("op", 3) {
	case 0:
		prog = lib.Cat(a, lib.Push(n), []byte{0x1c})
	case 1:
		prog = lib.Cat(a, lib.Push(n, c), []byte{0x78})
		jump = c != 0
	case 2:
		prog = lib.Cat(a, lib.Push(n, c), []byte{0x79})
		jump = c == 0
	}
	want := append([]int{}, va...)
	for i := 1; i < 9; i++ {
		if i >= n || !jump {
			want = append(want, len(want))
		}
		prog = append(prog, 0x24)
	}
	finish(&lib.Hint{}, prog, want)
}

// HJumpOver: a jump over a push instruction with any data, and to the end of
// the program, in the glyph program and in a function.
//
//vsym:merge=3
func HJumpOver() {
	k := vsym.Choice("data", nData)
	skip, skipped := data(k)
	c := vsym.Int("condition", -0x8000, 0x7fff)
	op, jump := byte(0x78), c != 0
	if vsym.Choice("op", 2) == 1 {
		op, jump = 0x79, c == 0
	}
	a, va := data(1)
	code := lib.Cat(lib.Push(len(skip)+1, c), []byte{op}, skip, a)
	var vs []int
	if !jump {
		vs = append(vs, skipped...)
	}
	vs = append(vs, va...)
	switch vsym.Choice("where", 3) {
	case 0:
		finish(&lib.Hint{}, code, vs)
	case 1:
		h := &lib.Hint{Fpgm: lib.Cat(lib.Push(0), []byte{0x2c}, code, []byte{0x2d})}
		finish(h, lib.Cat(lib.Push(0), []byte{0x2b}), vs)
	case 2: // to the end
		h := &lib.Hint{Contours: [][]lib.XY{lib.Row(3)}}
		tail := lib.Cat(lib.Push(5), lib.ToY(1))
		h.Prog = lib.Cat(lib.Push(7), lib.ToY(0), lib.Push(len(tail)+1, c), []byte{op}, tail)
		ps := h.MustLoad()
		vsym.Assert(ps[0].Y == 7, "the code before the jump ran")
		vsym.Assert(int(ps[1].Y) == vsym.If(jump, 0, 5), "the code after the jump")
	}
}

// HLoop: a backward jump repeats the code between.
//
//vsym:merge=3
func HLoop() {
	n := 1 + vsym.Choice("times", 6)
	d := vsym.Int("d", -1000, 1000)
	// total in storage 0; the counter on the stack
	body := lib.Cat(lib.Push(0, 0), []byte{0x43}, lib.Push(d), []byte{0x60, 0x42}, lib.Push(1), []byte{0x61, 0x20})
	var prog []byte
	s := vsym.Int("s", -1000, 1000)
	switch vsym.Choice("op", 3) {
	case 0: // JROT
		end := lib.Cat(lib.Push(0), []byte{0x23, 0x78})
		back := -(len(body) + len(end) - 1)
		prog = lib.Cat(body, lib.Push(back), []byte{0x23, 0x78})
	case 1: // JROF
		end := lib.Cat([]byte{0x5c}, lib.Push(0), []byte{0x23, 0x79})
		back := -(len(body) + len(end) - 1)
		prog = lib.Cat(body, []byte{0x5c}, lib.Push(back), []byte{0x23, 0x79})
	case 2: // IF JMPR EIF
		end := lib.Cat([]byte{0x58}, lib.Push(0), []byte{0x1c})
		back := -(len(body) + len(end) - 1)
		prog = lib.Cat(body, []byte{0x58}, lib.Push(back), []byte{0x1c, 0x59})
	}
	prog = lib.Cat(lib.Push(s, n), prog, lib.Push(0), []byte{0x43})
	finish(&lib.Hint{}, prog, []int{s, 0, n * d})
}

// HLoopCall: LOOPCALL runs its function as often as its count says.
//
//vsym:merge=3
func HLoopCall() {
	n := []int{-1, 0, 1, 2, 3, 7, -0x8000, 200}[vsym.Choice("count", 8)]
	d := vsym.Int("d", -100, 100)
	skip, vs := data(vsym.Choice("data", nData))
	pop := make([]byte, len(vs))
	for i := range pop {
		pop[i] = 0x21
	}
	f := lib.Cat(skip, pop, lib.Push(d), []byte{0x60})
	h := &lib.Hint{}
	def := lib.Cat(lib.Push(5), []byte{0x2c}, f, []byte{0x2d})
	code := lib.Cat(lib.Push(9, 100, n, 5), []byte{0x2a}, lib.Push(8))
	total := 100 + lib.Max(n, 0)*d
	if vsym.Choice("defined in prep", 2) == 1 {
		h.Prep = def
	} else {
		h.Fpgm = def
	}
	finish(h, code, []int{9, total, 8})
}

// HCall: calls of functions that call functions.
//
//vsym:merge=3
func HCall() {
	depth := []int{1, 2, 3, 10, 31}[vsym.Choice("depth", 5)]
	var f []byte
	want := []int{}
	var post []int
	for i := 0; i < depth; i++ {
		d := 0
		if i < 4 {
			d = vsym.Int("d", -0x8000, 0x7fff)
		}
		f = lib.Cat(f, lib.Push(2*i), []byte{0x2c}, lib.Push(d))
		want = append(want, d)
		if i+1 < depth {
			f = lib.Cat(f, lib.Push(2*i+2), []byte{0x2b})
		}
		f = lib.Cat(f, lib.Push(i), []byte{0x2d})
		post = append([]int{i}, post...)
	}
	h := &lib.Hint{Fpgm: f}
	code := lib.Cat(lib.Push(0), []byte{0x2b}, lib.Push(77))
	finish(h, code, append(append(want, post...), 77))
}

// HLoopNested: a LOOPCALL of a function that has a LOOPCALL.
//
//vsym:merge=3
func HLoopNested() {
	a, b := vsym.Choice("outer", 4), vsym.Choice("inner", 4)
	x, y := vsym.Int("x", -100, 100), vsym.Int("y", -100, 100)
	inner := lib.Cat(lib.Push(x), []byte{0x60})
	outer := lib.Cat(lib.Push(y), []byte{0x60}, lib.Push(b, 1), []byte{0x2a}, lib.Push(1), []byte{0x60})
	h := &lib.Hint{Fpgm: lib.Cat(
		lib.Push(2, 1), []byte{0x2c}, inner, []byte{0x2d, 0x2c}, outer, []byte{0x2d})}
	finish(h, lib.Cat(lib.Push(3, a, 2), []byte{0x2a}, lib.Push(4)), []int{3 + a*(y+b*x+1), 4})
}

// HDefine: a definition runs nothing, the last definition of a number counts,
// and the other numbers keep theirs.
//
//vsym:merge=3
func HDefine() {
	x, y, z := vsym.Int("x", -0x8000, 0x7fff), vsym.Int("y", -0x8000, 0x7fff), vsym.Int("z", -0x8000, 0x7fff)
	i, j := vsym.Choice("i", 3), vsym.Choice("j", 3)
	def := func(k, v int) []byte { return lib.Cat(lib.Push(k), []byte{0x2c}, lib.Push(v), []byte{0x2d}) }
	m := map[int]int{}
	m[i] = x
	m[j] = y
	h := &lib.Hint{Fpgm: lib.Cat(def(i, x), def(j, y), def(3, z), lib.Push(0, 0), []byte{0x42})}
	h.Prep = lib.Cat(lib.Push(0, i), []byte{0x2b, 0x42}) // storage 0 from function i
	finish(h, lib.Cat(lib.Push(j), []byte{0x2b}, lib.Push(i), []byte{0x2b}, lib.Push(3), []byte{0x2b}, lib.Push(0), []byte{0x43}), []int{m[j], m[i], z, m[i]})
}
