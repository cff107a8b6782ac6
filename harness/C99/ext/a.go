// Package c99 tests the engine itself: merged execution gives what forked
// execution does.
package c99

import "github.com/golang/freetype/vsym"

type p struct{ x, y int }

func row(n int) []p {
	var r []p
	for i := 0; i < n; i++ {
		r = append(r, p{64 * i, 0})
	}
	return r
}

// HLoopResult: values of a loop's variables after it.
//
//vsym:merge=3
func HLoopResult() {
	v := make([]int, 1, 10)
	w := []int{1, 2}
	if vsym.Bool("c") {
		v = append(v, w...)
	}
	n := len(v)
	m := n
	if n < 1 {
		m = 1
	}
	if m > 10 {
		m = 10
	}
	c := row(m + 1)
	vsym.Assert(len(c) == m+1, "Lc")
	vsym.Assert(len(c) == n+1, "Lcn")
	k := 0
	for range c {
		k++
	}
	vsym.Assert(k == m+1, "k")
}

var glob int

type st struct {
	a, b int
	arr  [4]int
	p    *int
}

var progs = []func(a, b, c int) int{
	func(a, b, c int) int { // breaks
		s, i := 0, 0
		for i = 0; i < a; i++ {
			s += b
			if s > c {
				break
			}
		}
		return s*100 + i
	},
	func(a, b, c int) int { // continue
		s := 0
		for i := 0; i < 6; i++ {
			if i == a {
				continue
			}
			if i > b {
				s += c
				continue
			}
			s += i
		}
		return s
	},
	func(a, b, c int) int { // nested loops
		s, j := 0, 0
		for i := 0; i < a; i++ {
			for j = i; j < b; j++ {
				s += c
				if s == 4 {
					break
				}
			}
			s ^= j
		}
		return s + j
	},
	func(a, b, c int) int { // memory
		x := st{a: a, b: b}
		for i := range x.arr {
			if i < a {
				x.arr[i] = c
			} else if i == b {
				x.arr[3] = i
			}
		}
		x.p = &x.a
		if b > 1 {
			x.p = &x.b
		}
		*x.p += 7
		return x.arr[0] + 10*x.arr[1] + 100*x.arr[2] + 1000*x.arr[3] + x.a*3 + x.b*5
	},
	func(a, b, c int) int { // early return
		for i := 0; i < 5; i++ {
			if i == a {
				return b
			}
			if i*b == c {
				return i
			}
		}
		return -1
	},
	func(a, b, c int) (r int) { // a while loop with two variables
		x, y := a, b
		for x != y {
			if x > y {
				x--
			} else {
				y--
			}
			r++
			if r > 5 {
				break
			}
		}
		return r*100 + x*10 + y + c
	},
	func(a, b, c int) int { // a switch in a loop
		s := 0
		for i := a; i < 4; i++ {
			switch {
			case i == b:
				s += 1
				fallthrough
			case i == c:
				s += 10
			default:
				s -= 3
			}
		}
		return s
	},
	func(a, b, c int) int { // globals and closures
		glob = c
		f := func(k int) bool { glob += k; return glob > b }
		n := 0
		for n < 4 && !f(a) {
			n++
		}
		return glob*10 + n
	},
	func(a, b, c int) int { // slices
		v := make([]int, 0, 8)
		for i := 0; i < a; i++ {
			v = append(v, i*b)
		}
		if c > 2 {
			v = append(v, 9)
		}
		s := 0
		for i, x := range v {
			s += x * (i + 1)
		}
		return s*10 + len(v)
	},
	func(a, b, c int) int { // goto
		i, s := 0, 0
	again:
		s += b
		i++
		if i < a {
			if s == c {
				s++
				goto again
			}
			s += 2
			goto again
		}
		return s + i
	},
	func(a, b, c int) int { // a label
		s := 0
	outer:
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				if i+j == a {
					continue outer
				}
				if i*j == b {
					break outer
				}
				s = s*2 + c
			}
		}
		return s
	},
}

// HMerge: merged and forked runs agree.
//
//vsym:merge=3
func HMerge() {
	f := progs[vsym.Choice("program", len(progs))]
	a, b, c := vsym.Int("a", 0, 4), vsym.Int("b", 0, 4), vsym.Int("c", 0, 4)
	x := f(a, b, c)
	vsym.Merge(0)
	y := f(a, b, c)
	vsym.Assert(x == y, "merged as forked")
	vsym.Observe("x", x)
}
