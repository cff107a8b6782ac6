package c09

import (
	"math"

	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/vsym"
)

type rec struct {
	ss    [][]raster.Span
	dones []bool
}

func (r *rec) Paint(ss []raster.Span, done bool) {
	r.ss = append(r.ss, append([]raster.Span(nil), ss...))
	r.dones = append(r.dones, done)
}

var gammas = [...]float64{1, 2.2, 0.5, 1.4, 0.1, 8, 3, 0.75}

func gamma(name string) float64 {
	n := 5
	if vsym.Thorough() {
		n = len(gammas)
	}
	return gammas[vsym.Choice(name, n)]
}

// HCurve: the value of each alpha.
func HCurve() {
	gm := gamma("gamma")
	var r rec
	g := raster.NewGammaCorrectionPainter(&r, gm)
	// an alpha between two of the 256 evenly spaced ones
	lo := [...]int{0, 1, 2, 17, 100, 127, 128, 200, 253, 254}
	n := len(lo)
	k := 0
	if vsym.Thorough() {
		k = vsym.Choice("k", 255)
	} else {
		k = lo[vsym.Choice("lo", n)]
	}
	a := 257*k + vsym.Int("a", 0, 257)
	g.Paint([]raster.Span{{Y: 1, X0: 2, X1: 3, Alpha: uint32(a)}}, true)
	g.Paint([]raster.Span{{Y: 1, X0: 2, X1: 3, Alpha: uint32(a + vsym.If(a < 0xffff, 1, 0))}}, true)
	v, w := int(r.ss[0][0].Alpha), int(r.ss[1][0].Alpha)
	vsym.Assert(w >= v, "a larger alpha does not become smaller")
	vsym.Assert(a != 0 || v == 0, "0 stays 0")
	vsym.Assert(a != 0xffff || v == 0xffff, "full stays full")
	vsym.Assert(v >= 0 && v <= 0xffff, "alpha in range")
	if gm == 1 {
		vsym.Assert(v == a, "gamma 1 changes nothing")
		return
	}
	p := int(0xffff * math.Pow(float64(k)/255, gm))
	q := int(0xffff * math.Pow(float64(k+1)/255, gm))
	vsym.Assert(a != 257*k || (v-p <= 1 && p-v <= 1), "alpha^gamma")
	// on the chord between the two
	d := 257*(v-p) - (q-p)*(a-257*k)
	vsym.Assert(d <= 2*257 && d >= -2*257, "interpolated alpha^gamma")
}

// HSpans: nothing else changes.
func HSpans() {
	var r rec
	g := raster.NewGammaCorrectionPainter(&r, gammas[vsym.Choice("first", 3)])
	if vsym.Choice("again", 2) == 1 {
		g.SetGamma(gammas[vsym.Choice("gamma", 3)])
	}
	n := vsym.Choice("n", 4)
	var in [2][]raster.Span
	for i := range in {
		m := n
		if i == 1 {
			m = 1
		}
		in[i] = make([]raster.Span, m)
		for j := range in[i] {
			in[i][j] = raster.Span{Y: vsym.Int("y", -9, 9), X0: vsym.Int("x0", -9, 9), X1: vsym.Int("x1", -9, 9), Alpha: uint32([...]int{0, 1, 0x8000, 0xfffe, 0xffff}[(vsym.Choice("alpha", 3)+j)%5])}
		}
	}
	done := vsym.Bool("done")
	for i := range in {
		g.Paint(append([]raster.Span(nil), in[i]...), done != (i == 0))
	}
	vsym.Assert(len(r.ss) == 2, "as many batches")
	for i := range r.ss {
		vsym.Assert(r.dones[i] == (done != (i == 0)), "the same done flags")
		vsym.Assert(len(r.ss[i]) == len(in[i]), "as many spans in a batch")
		for j, s := range r.ss[i] {
			o := in[i][j]
			vsym.Assert(s.Y == o.Y && s.X0 == o.X0 && s.X1 == o.X1, "the same extents")
			vsym.Assert(o.Alpha != 0 || s.Alpha == 0, "0 stays 0")
			vsym.Assert(o.Alpha != 0xffff || s.Alpha == 0xffff, "full stays full")
			for b := range r.ss {
				for k, t := range r.ss[b] {
					vsym.Assert(in[b][k].Alpha != o.Alpha || t.Alpha == s.Alpha, "depends on the alpha only")
				}
			}
		}
	}
}

// HSet: a gamma set later replaces an earlier one.
func HSet() {
	var r, f rec
	g := raster.NewGammaCorrectionPainter(&r, gamma("first"))
	last := gamma("last")
	g.SetGamma(gamma("middle"))
	g.SetGamma(last)
	n := raster.NewGammaCorrectionPainter(&f, last)
	a := 257*[...]int{0, 3, 128, 254}[vsym.Choice("lo", 4)] + vsym.Int("a", 0, 257)
	for _, p := range [...]raster.Painter{g, n} {
		p.Paint([]raster.Span{{Y: 0, X0: 1, X1: 2, Alpha: uint32(a)}}, true)
	}
	vsym.Assert(r.ss[0][0].Alpha == f.ss[0][0].Alpha, "the last gamma set counts")
	if last == 1 {
		vsym.Assert(int(r.ss[0][0].Alpha) == a, "gamma 1 changes nothing, also after another one")
	}
}
