package main

// Byte strings: a value stored as bytes and read back is the value again.
// The simplifier spreads the bytes' terms, so where they came from is noted
// beside them.

// piece says that a term holds the bits of root from bit k on.
type piece struct {
	root *Term
	k    uint64
}

type pieces struct {
	shr  map[*Term][]piece // whole right shifts
	part map[*Term][]piece // truncations to whole bytes
	ext  map[*Term]shlOf   // extensions of parts
	shl  map[*Term]shlOf   // left shifts of those
}

type shlOf struct {
	t    *Term
	s    uint64
	sign bool // sign-extended
}

func (p *pieces) reset() {
	clear(p.shr)
	clear(p.part)
	clear(p.ext)
	clear(p.shl)
}

func newPieces() pieces {
	return pieces{map[*Term][]piece{}, map[*Term][]piece{}, map[*Term]shlOf{}, map[*Term]shlOf{}}
}

func addPiece(l []piece, p piece) []piece {
	for _, q := range l {
		if q == p {
			return l
		}
	}
	if len(l) >= 6 {
		return l
	}
	return append(l, p)
}

func (s *Store) noteShr(r, x *Term, k uint64) *Term {
	if r.isConst() || k == 0 || k >= uint64(x.w) || k%8 != 0 {
		return r
	}
	l := addPiece(s.pc.shr[r], piece{x, k})
	for _, q := range s.pc.shr[x] {
		l = addPiece(l, piece{q.root, q.k + k})
	}
	s.pc.shr[r] = l
	return r
}

func (s *Store) noteTrunc(r, x *Term) *Term {
	if r.isConst() || r.w%8 != 0 || r == x {
		return r
	}
	l := addPiece(s.pc.part[r], piece{x, 0})
	for _, q := range s.pc.shr[x] {
		if q.k+uint64(r.w) <= uint64(q.root.w) {
			l = addPiece(l, q)
		}
	}
	for _, q := range s.pc.part[x] {
		l = addPiece(l, q)
	}
	s.pc.part[r] = l
	return r
}

func (s *Store) noteExt(r, x *Term, sign bool) *Term {
	if !r.isConst() && r != x && s.pc.part[x] != nil {
		s.pc.ext[r] = shlOf{x, 0, sign}
	}
	return r
}

func (s *Store) noteShl(r, x *Term, k uint64) *Term {
	if r.isConst() || k == 0 || k%8 != 0 || r == x {
		return r
	}
	if y, ok := s.pc.ext[x]; ok {
		if k+uint64(y.t.w) <= uint64(x.w) {
			s.pc.shl[r] = shlOf{y.t, k, y.sign}
		}
	} else if y, ok := s.pc.shl[x]; ok {
		if k+y.s+uint64(y.t.w) <= uint64(x.w) {
			s.pc.shl[r] = shlOf{y.t, k + y.s, y.sign}
		}
	}
	return r
}

// joinPieces recombines two adjacent parts of one value, or returns nil.
func (s *Store) joinPieces(a, b *Term) *Term {
	get := func(t *Term) (shlOf, bool) {
		if y, ok := s.pc.shl[t]; ok {
			return y, true
		}
		y, ok := s.pc.ext[t]
		return y, ok
	}
	p, ok1 := get(a)
	q, ok2 := get(b)
	if !ok1 || !ok2 {
		return nil
	}
	if p.s < q.s {
		p, q = q, p
	}
	if p.s != q.s+uint64(q.t.w) || q.sign {
		return nil
	}
	w := p.t.w + q.t.w
	for _, x := range s.pc.part[p.t] {
		for _, y := range s.pc.part[q.t] {
			if x.root == y.root && x.k == y.k+uint64(q.t.w) && y.k+uint64(w) <= uint64(x.root.w) {
				r := x.root
				if y.k > 0 {
					r = s.Lshr(r, s.Const(r.w, y.k))
				}
				if r = s.Trunc(r, w); p.sign {
					r = s.Sext(r, a.w)
				} else {
					r = s.Zext(r, a.w)
				}
				if q.s > 0 {
					r = s.Shl(r, s.Const(a.w, q.s))
				}
				return r
			}
		}
	}
	return nil
}
