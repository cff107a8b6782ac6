package c27

import "github.com/golang/freetype/vsym"

func any(name string) int { return vsym.Int(name, -900, 900) }

// setup makes a glyph some of whose points have any position, and moves two.
func setup(axis int) *model {
	m := newModel(axis)
	m.set([8]int{10, any("o1"), 300, any("o3"), -70, 5, 0, 0})
	m.cvt = [3]int{any("cvt"), 45, -30}
	return m
}

// one has only one point with any position.
func one() *model {
	m := newModel(0)
	m.set([8]int{10, vsym.Int("o1", -250, 250), 300, 20, -70, 5, 0, 0})
	m.cvt = [3]int{0, 45, -30}
	return m
}

func (m *model) set(o [8]int) {
	m.o[1] = o
	if m.axis == 1 {
		m.o[1][0] = 0
	}
	m.c = m.o
}

// begin moves points 0 and 2, so that they differ from the original ones.
func (m *model) begin(d int) {
	m.SHPIX(d, 0, 2)
	m.UTP(2)
	m.SRP(0, 0)
	m.SRP(1, 0)
	m.SRP(2, 2)
}

// twilight puts twilight points 0 and 1 somewhere.
func (m *model) twilight() {
	m.SZP(0, 0)
	m.MIAP(0, 1, 1)
	m.SZP(2, 0)
	m.SHPIX(17, 1)
	m.SZP(2, 1)
	m.SZP(0, 1)
	m.SRP(0, 0)
	m.SRP(1, 0)
}

// An instruction, on points that are not references.
var moves = []func(m *model){
	func(m *model) { m.MDAP(0, 1) },
	func(m *model) { m.MDAP(1, 1) },
	func(m *model) { m.MIAP(0, 1, 0) },
	func(m *model) { m.MIAP(1, 1, 0) },
	func(m *model) { m.MSIRP(0, 3, any("d")) },
	func(m *model) { m.MSIRP(1, 1, any("d")) },
	func(m *model) { m.SHP(0, 1, 3, 4) },
	func(m *model) { m.SHP(1, 3, 5) },
	func(m *model) { m.SHC(0, 0) },
	func(m *model) { m.SHC(1, 1) },
	func(m *model) { m.SHC(1, 0) },
	func(m *model) { m.SHZ(0) },
	func(m *model) { m.SHZ(1) },
	func(m *model) { m.SHPIX(any("d"), 3, 1, 4) },
	func(m *model) { m.ALIGNRP(3) },
	func(m *model) { m.ALIGNRP(4, 1) },
	func(m *model) { m.SCFS(3, any("d")) },
	func(m *model) { m.ALIGNPTS(1, 4) },
	func(m *model) { m.UTP(0) },
	func(m *model) { m.MDRP(0, 1) },
	func(m *model) { m.MDRP(0x10, 3) },
	func(m *model) { m.MIRP(0, 3, 0) },
	func(m *model) { m.MIRP(0x10, 1, 0) },
	func(m *model) { m.SHPIX(any("d"), 1, 1) }, // twice
	func(m *model) { m.SHP(1) },                // no points at all
}

// Instructions that show the reference points, and the loop count.
var after = []func(m *model){
	func(m *model) { m.SHP(0, 4) },
	func(m *model) { m.SHP(1, 4) },
	func(m *model) { m.ALIGNRP(4) },
	func(m *model) { m.MSIRP(0, 5, 8) },
}

// HSequence: an instruction, and one that depends on the references.
//
//vsym:merge=3
func HSequence() {
	axis := vsym.Choice("axis", 3)
	a := vsym.Choice("instruction", len(moves))
	b := vsym.Choice("next", len(after))
	m := setup(axis)
	m.begin(any("d0"))
	moves[a](m)
	after[b](m)
	m.check()
}

// HSequence2: two instructions.
//
//vsym:merge=3 tier=thorough
func HSequence2() {
	m := setup(vsym.Choice("axis", 2))
	m.begin(any("d0"))
	moves[vsym.Choice("instruction", len(moves))](m)
	moves[vsym.Choice("next", len(moves))](m)
	m.check()
}

// HMDRP: all kinds of MDRP, with any single width cut-in and minimum distance.
//
//vsym:merge=3
func HMDRP() {
	bits := vsym.Choice("bits", 32)
	m := one()
	m.begin(37)
	switch vsym.Choice("state", 4) {
	case 1:
		m.sw, m.swCutin = vsym.Int("single", 1, 300), vsym.Int("cut-in", 0, 300)
		m.emit(0x1e, m.swCutin)
		m.emit(0x1f, m.sw)
	case 2:
		m.minDist = vsym.Int("minimum", 0, 300)
		m.emit(0x1a, m.minDist)
	case 3:
		m.noRound = true
		m.emit(0x7a)
	}
	m.MDRP(bits, 1)
	m.ALIGNRP(4)
	m.SHP(1, 5)
	m.check()
}

// HMIRP: all kinds of MIRP.
//
//vsym:merge=3
func HMIRP() {
	bits := vsym.Choice("bits", 32)
	state := vsym.Choice("state", 5)
	var m *model
	if vsym.Thorough() || vsym.Choice("symbolic", 2) == 0 {
		m = one()
		m.cvt[0] = 73
	} else {
		m = newModel(0)
		m.set([8]int{10, 120, 300, 20, -70, 5, 0, 0})
	}
	if m.cvt[0] == 0 || vsym.Thorough() {
		m.cvt = [3]int{vsym.Int("cvt", -250, 250), 45, -30}
	}
	m.begin(37)
	switch state {
	case 1:
		m.sw, m.swCutin = vsym.Int("single", 1, 120), vsym.Int("cut-in", 0, 120)
		m.emit(0x1e, m.swCutin)
		m.emit(0x1f, m.sw)
	case 2:
		m.minDist = vsym.Int("minimum", 0, 120)
		m.emit(0x1a, m.minDist)
	case 3:
		m.flip = false
		m.emit(0x4e)
	case 4:
		m.cutin = vsym.Int("cut-in", 0, 120)
		m.emit(0x1d, m.cutin)
		m.noRound = true
		m.emit(0x7a)
	}
	m.MIRP(bits, 1, 0)
	m.ALIGNRP(4)
	m.SHP(1, 5)
	m.check()
}

// HMIAP: MIAP with any cut-in.
//
//vsym:merge=3
func HMIAP() {
	m := setup(vsym.Choice("axis", 2))
	m.begin(any("d0"))
	m.cutin = vsym.Int("cut-in", 0, 500)
	m.emit(0x1d, m.cutin)
	z := vsym.Choice("zone", 2)
	if z == 0 {
		m.SZP(0, 0)
	}
	m.MIAP(vsym.Choice("rounded", 2), vsym.Choice("point", 2), 0)
	if z == 0 { // the reference points are numbers, of points of any zone
		m.SZP(0, 1)
	}
	m.ALIGNRP(4)
	m.SHP(1, 5)
	m.SHP(0, 3)
	m.check()
}

// HTwilight: instructions whose reference is a twilight point.
//
//vsym:merge=3
func HTwilight() {
	m := setup(vsym.Choice("axis", 2))
	m.twilight()
	switch vsym.Choice("instruction", 14) {
	case 0:
		m.SZP(0, 0)
		m.SRP(0, 1)
		m.MDRP(vsym.Choice("bits", 8)<<2, 3)
	case 1:
		m.SZP(0, 0)
		m.SRP(0, 1)
		m.MIRP(vsym.Choice("bits", 8)<<2, 3, 0)
	case 2:
		m.SZP(0, 0)
		m.SRP(0, 1)
		m.MSIRP(vsym.Choice("set", 2), 3, any("d"))
	case 3:
		m.SZP(0, 0)
		m.SRP(1, 1)
		m.SHP(1, 3, 1)
	case 4:
		m.SZP(1, 0)
		m.SRP(2, 1)
		m.SHP(0, 3, 1)
	case 5:
		m.SZP(0, 0)
		m.SRP(1, 1)
		m.SHC(1, 0) // point 1 of the glyph is not the reference
	case 6:
		m.SZP(1, 0)
		m.SRP(2, 1)
		m.SHZ(0)
	case 7:
		m.SZP(0, 0)
		m.SRP(0, 1)
		m.ALIGNRP(3)
	case 8: // a twilight point moves
		m.SZP(0, 0)
		m.MIAP(1, 2, 0)
		m.show(6, 2)
	case 9:
		m.SZP(2, 0)
		m.SCFS(2, any("d"))
		m.SZP(1, 0)
		m.SRP(2, 2)
		m.SHP(0, 1) // not displaced
		m.show(6, 2)
		m.show(7, 1)
	case 10:
		m.SHPIX(any("d"), 0)
		m.SRP(1, 0)
		m.SZP(2, 0)
		m.SHZ(1)
		m.show(6, 0)
		m.show(7, 1)
	case 11:
		m.SZP(1, 0)
		m.SRP(0, 3)
		m.MDRP(vsym.Choice("bits", 8)<<2, 1)
		m.show(6, 1)
	case 12:
		m.SZP(0, 0)
		m.MDAP(vsym.Choice("rounded", 2), 1)
		m.show(6, 1)
	case 13: // all zones at once
		m.SZPS(0)
		m.SHPIX(any("d"), 2, 3)
		m.SRP(1, 2)
		m.SHP(1, 4)
		m.show(6, 4)
		m.show(7, 3)
	}
	m.check()
}

// HReference: which point of which zone SHP, SHC and SHZ refer to, also when
// all reference points have the same number.
//
//vsym:merge=3
func HReference() {
	m := setup(vsym.Choice("axis", 2))
	// twilight points 0 and 2 and glyph points 0 and 2 are displaced by
	// different distances
	m.SZP(2, 0)
	m.SHPIX(any("d0"), 0)
	m.SHPIX(5, 2)
	m.SZP(2, 1)
	m.SHPIX(any("d1"), 0)
	m.SHPIX(-9, 2)
	m.SZP(0, vsym.Choice("zone 0", 2))
	m.SZP(1, vsym.Choice("zone 1", 2))
	m.SRP(0, 1)
	m.SRP(1, 2*vsym.Choice("reference 1", 2))
	m.SRP(2, 2*vsym.Choice("reference 2", 2))
	a := vsym.Choice("a", 2)
	switch vsym.Choice("instruction", 3) {
	case 0:
		m.SHP(a, 4, 1)
	case 1:
		m.SHC(a, vsym.Choice("contour", 2))
	case 2:
		m.SHZ(a)
	}
	m.check()
}
