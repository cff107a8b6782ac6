package c26

import (
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
)

// A state is a rounding state: the code that selects it, and its period,
// phase and threshold.
type state struct {
	code                     []byte
	period, phase, threshold int
	diagonal                 bool
}

var states = []state{
	{nil, 64, 0, 32, false},          // the default
	{[]byte{0x18}, 64, 0, 32, false}, // RTG
	{[]byte{0x19}, 64, 32, 32, false},
	{[]byte{0x3d}, 32, 0, 16, false},
	{[]byte{0x7d}, 64, 0, 0, false},
	{[]byte{0x7c}, 64, 0, 63, false},
	{[]byte{0x7a}, 0, 0, 0, false},
}

// super is the state that SROUND or S45ROUND selects.
func super(n int, diagonal bool) state {
	return superState(n>>4, n&15, diagonal)
}

func superState(hi, t int, diagonal bool) state {
	n := hi<<4 | t
	s := state{code: lib.Cat(lib.Push(n), []byte{byte(0x76 + vsym.B2I(diagonal))}), diagonal: diagonal}
	s.period = []int{32, 64, 128, 64}[hi>>2&3]
	if diagonal {
		s.period = []int{22, 45, 90, 45}[hi>>2&3] // times 1/sqrt(2)
	}
	s.phase = s.period * (hi & 3) / 4
	s.threshold = vsym.If(t != 0, lib.FloorDiv(s.period*(t-4), 8), s.period-1)
	return s
}

// run runs a program in a rounding state and returns points.
func (s state) run(prog []byte) []int {
	h := lib.Hint{Contours: [][]lib.XY{lib.Row(6)}}
	other := []byte{0x19, 0x3d, 0x7a}[s.phase%3] // must not matter
	where := 0
	if !s.diagonal {
		where = vsym.Choice("where", 2)
	}
	switch where {
	case 0:
		if s.code == nil {
			h.Prog = prog
		} else {
			h.Prog = lib.Cat([]byte{other}, s.code, prog)
		}
	case 1: // the prep program's state holds in each glyph program
		if s.code != nil {
			h.Prep = lib.Cat([]byte{other}, s.code)
		}
		h.Prog = prog
	}
	var ys []int
	for _, p := range h.MustLoad() {
		ys = append(ys, int(p.Y))
	}
	return ys
}

// check asserts that got is x rounded in the state s.
func (s state) check(x, got int) {
	if s.period == 0 {
		vsym.Assert(got == x, "rounding is off")
		return
	}
	a := lib.Abs(x)
	vsym.Assert(x <= 0 || got >= 0, "the sign stays")
	vsym.Assert(x >= 0 || got <= 0, "the sign stays")
	if x == 0 {
		return // of either sign
	}
	m := lib.Abs(got)
	e := 0
	if s.diagonal {
		e = 1 // thresholds are not integral
	}
	vsym.Assert(m >= s.phase, "at least the phase")
	vsym.Assert(lib.FloorDiv(m-s.phase, s.period)*s.period == m-s.phase, "on the grid")
	vsym.Assert(m == s.phase || m <= a+s.threshold+e, "not above the threshold")
	vsym.Assert(a+s.threshold < m+s.period+e, "not below the threshold")
}

// HRound: ROUND of any value in the standard states.
//
//vsym:merge=3
func HRound() {
	s := states[vsym.Choice("state", len(states))]
	x, px := lib.AnyHi("x", 0x7fff)
	op := byte(0x68 + vsym.Choice("distance type", 4))
	got := s.run(lib.Cat(lib.Push(9), px, []byte{op}, lib.ToY(0), lib.ToY(1), []byte{0x24}, lib.ToY(2)))
	s.check(int(x), got[0])
	vsym.Assert(got[1] == 9 && got[2] == 0, "the rest of the stack")
}

// HZero: zero, in the standard states.
//
//vsym:merge=3
func HZero() {
	s := states[vsym.Choice("state", len(states))]
	got := s.run(lib.Cat(lib.Push(0), []byte{0x68}, lib.ToY(0)))[0]
	if s.phase == 0 {
		vsym.Assert(got == 0, "zero stays")
	} else {
		vsym.Assert(lib.Abs(got) == s.phase, "zero goes to the phase")
	}
}

// HSuper: ROUND of any value in the states of SROUND.
//
//vsym:merge=3
func HSuper() {
	n := vsym.Choice("period and phase", 16)
	if vsym.Choice("more bits", vsym.If(vsym.Thorough(), 2, 1)) == 1 {
		n |= 0x70
	}
	x, px := lib.AnyHi("x", 0x7fff)
	s := superState(n, vsym.Int("threshold", 0, 15), false)
	got := s.run(lib.Cat(px, []byte{0x68}, lib.ToY(0)))
	s.check(int(x), got[0])
}

// HSuper45: ROUND of small values in the states of S45ROUND.
//
//vsym:merge=3
func HSuper45() {
	n := vsym.Choice("period and phase", 16)
	x := vsym.Int("x", -1000, 1000)
	t := 0
	if vsym.Thorough() {
		t = vsym.Choice("threshold", 16)
	} else {
		t = []int{0, 8, 1, 15, 4}[(vsym.Choice("threshold", 2)+n)%5]
	}
	s := superState(n, t, true)
	got := s.run(lib.Cat(lib.Push(x), []byte{0x68}, lib.ToY(0)))
	s.check(x, got[0])
}

// HParity: ODD and EVEN tell whether ROUND's result is an odd number of pixels.
//
//vsym:merge=3
func HParity() {
	k := vsym.Choice("state", len(states)+2)
	var s state
	if k < len(states) {
		s = states[k]
	} else {
		s = super([]int{0x88, 0x41}[k-len(states)], false)
	}
	_, px := lib.AnyHi("x", 0x7fff)
	got := s.run(lib.Cat(px, []byte{0x20, 0x20, 0x68}, lib.ToY(0), []byte{0x56}, lib.ToY(1), []byte{0x57}, lib.ToY(2), []byte{0x24}, lib.ToY(3)))
	vsym.Assert(got[3] == 0, "the stack's depth")
	vsym.Assert(got[1]+got[2] == 1, "either odd or even")
	vsym.Assert(got[1] == 0 || got[1] == 1, "a boolean")
	if got[0]%64 == 0 {
		vsym.Assert(got[1] == got[0]/64&1, "odd")
	}
}
