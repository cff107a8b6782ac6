// Package vsym is the interface between a harness and the symbolic engine.
// The engine intercepts these functions; the bodies here serve native replay
// of concrete inputs.
package vsym

import (
	"reflect"
	"strconv"
)

type skip struct{}

var (
	in    map[string]int64
	names map[string]int
	fails []string
	obs   []string
	snaps []snap
)

// Reset starts a native run on the given inputs.
func Reset(inputs map[string]int64) {
	in, names, fails, obs, snaps = inputs, map[string]int{}, nil, nil, nil
}

// Result returns what the run since Reset reported.
func Result() (failed, observed []string) { return fails, obs }

// IsSkip reports whether a recovered panic value means the inputs were assumed away.
func IsSkip(r any) bool { _, ok := r.(skip); return ok }

func uniq(name string) string {
	n := names[name]
	names[name] = n + 1
	if n > 0 {
		return name + "#" + strconv.Itoa(n)
	}
	return name
}

func get(name string, lo int64) int64 {
	nm := uniq(name)
	if v, ok := in[nm]; ok {
		return v
	}
	return lo
}

// Int is any value in [lo, hi].
func Int(name string, lo, hi int) int { return int(get(name, int64(lo))) }

// I32 is any value in [lo, hi].
func I32(name string, lo, hi int32) int32 { return int32(get(name, int64(lo))) }

// U8 is any byte.
func U8(name string) uint8 { return uint8(get(name, 0)) }

// U16 is any uint16.
func U16(name string) uint16 { return uint16(get(name, 0)) }

// U32 is any uint32.
func U32(name string) uint32 { return uint32(get(name, 0)) }

// Bool is any boolean.
func Bool(name string) bool { return get(name, 0)&1 != 0 }

// Bytes is any byte string of length n.
func Bytes(name string, n int) []byte {
	nm := uniq(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in[nm+"."+strconv.Itoa(i)])
	}
	return b
}

// Choice is any value in [0, n); the engine explores each on a path of its own.
func Choice(name string, n int) int { return int(get(name, 0)) }

// Pick makes the engine explore each value of x on a path of its own.
func Pick(x int) int { return x }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(skip{})
	}
}

// Assert states what must hold.
func Assert(c bool, label string) {
	if !c {
		fails = append(fails, label)
	}
}

// Check decides the assertions made so far.
func Check() {}

// Observe records a value for comparison of the encoding with the real code.
func Observe(label string, v int) { obs = append(obs, label+"="+strconv.Itoa(v)) }

// Reach marks a point that some input must reach.
func Reach(label string) {}

// Merge sets how eagerly the engine joins paths (0 never .. 3 always).
func Merge(level int) {}

// Skip ends the path.
func Skip() { panic(skip{}) }

// Symbolic is true under the engine.
func Symbolic() bool { return false }

// Thorough is true in the thorough tier.
func Thorough() bool { return in["$thorough"] != 0 }

// If is c ? a : b without a branch.
func If(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Catch runs f and reports whether it panicked.
func Catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if IsSkip(r) {
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// B2I is 1 for true.
func B2I(b bool) int { return If(b, 1, 0) }

type snap struct {
	x any
	s []byte
}

// Snapshot records all memory reachable from x, for Unchanged.
func Snapshot(x any) int {
	snaps = append(snaps, snap{x, dump(x)})
	return len(snaps) - 1
}

// Unchanged reports whether the memory that the snapshot recorded is as it was.
func Unchanged(h int) bool { return string(dump(snaps[h].x)) == string(snaps[h].s) }

func dump(x any) []byte {
	var b []byte
	num := func(v uint64) { b = append(strconv.AppendUint(b, v, 16), ' ') }
	type key struct {
		t reflect.Type
		p uintptr
		n int
	}
	seen := map[key]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Bool:
			num(uint64(B2I(v.Bool())))
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			num(uint64(v.Int()))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			num(v.Uint())
		case reflect.Float32, reflect.Float64:
			b = append(strconv.AppendFloat(b, v.Float(), 'x', -1, 64), ' ')
		case reflect.String:
			b = append(append(b, strconv.Quote(v.String())...), ' ')
		case reflect.Pointer:
			num(uint64(v.Pointer()))
			if k := (key{v.Type(), v.Pointer(), 0}); !v.IsNil() && !seen[k] {
				seen[k] = true
				walk(v.Elem())
			}
		case reflect.Slice:
			num(uint64(v.Pointer()))
			num(uint64(v.Len()))
			num(uint64(v.Cap()))
			if k := (key{v.Type(), v.Pointer(), v.Cap()}); !seen[k] {
				seen[k] = true
				v = v.Slice(0, v.Cap())
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i))
				}
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Interface:
			if v.IsNil() {
				b = append(b, "nil "...)
				return
			}
			b = append(append(b, v.Elem().Type().String()...), ' ')
			walk(v.Elem())
		case reflect.Func, reflect.Chan, reflect.UnsafePointer:
			num(uint64(v.Pointer()))
		default:
			panic("vsym: snapshot of a " + v.Kind().String())
		}
	}
	walk(reflect.ValueOf(x))
	return b
}
