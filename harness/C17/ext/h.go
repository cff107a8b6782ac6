package c17

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/vsym"
	"github.com/golang/freetype/zzverif/lib"
)

type rec struct{ pid, psid, id, length, offset int }

func (r rec) unicode() bool { return r.pid == 0 && (r.psid == 3 || r.psid == 4) }
func (r rec) microsoft() bool {
	return r.pid == 3 && (r.psid == 0 || r.psid == 1 || r.psid == 10)
}

func table(rs []rec, str []byte) []byte {
	d := make([]byte, 6+12*len(rs))
	lib.Put16(d, 2, len(rs))
	lib.Put16(d, 4, len(d))
	for i, r := range rs {
		x := 6 + 12*i
		lib.Put16(d, x, r.pid)
		lib.Put16(d, x+2, r.psid)
		lib.Put16(d, x+4, int(vsym.U16("language")))
		lib.Put16(d, x+6, r.id)
		lib.Put16(d, x+8, r.length)
		lib.Put16(d, x+10, r.offset)
	}
	return append(d, str...)
}

// matches asserts that s is the decoding of str[off:off+n].
func matches(s string, str []byte, off, n int) bool {
	ok := 2*len(s) == n
	for i := 0; i < len(s) && off+2*i+2 <= len(str); i++ {
		u := lib.Get16(str, off+2*i)
		want := vsym.If(0x20 <= u && u < 0x7f, u, '?')
		ok = ok && int(s[i]) == want
	}
	return ok
}

// HText: any text at any place.
func HText() {
	n := vsym.Choice("n", 4)
	off := vsym.Choice("off", 3)
	str := vsym.Bytes("str", 8)
	r := rec{3, 1, int(vsym.U16("id")), 2 * n, off}
	if vsym.Choice("unicode", 2) == 1 {
		r.pid, r.psid = 0, 3+vsym.Choice("full", 2)
	}
	f := lib.NewFont(1, 1, 1000)
	f.Set("name", table([]rec{r}, str))
	t := lib.MustParse(f)
	id := int(vsym.U16("want"))
	s := t.Name(truetype.NameID(id))
	if id == r.id {
		vsym.Assert(len(s) == n, "the text has as many characters as the record has units")
		vsym.Assert(matches(s, str, off, 2*n), "the text, with ? for what is not printable ASCII")
	} else {
		vsym.Assert(s == "", "no record, no name")
	}
}

// HPreference: records of any platforms and ids.
//vsym:merge=0
func HPreference() {
	n := 1 + vsym.Choice("n", 3)
	if vsym.Thorough() {
		n = 4
	}
	rs := make([]rec, n)
	var str []byte
	for i := range rs {
		rs[i] = rec{int(vsym.U16("pid")), int(vsym.U16("psid")), int(vsym.U16("id")), 2, len(str)}
		str = append(str, 0, byte('A'+i))
	}
	f := lib.NewFont(1, 1, 1000)
	f.Set("name", table(rs, str))
	t := lib.MustParse(f)
	id := int(vsym.U16("want"))
	s := t.Name(truetype.NameID(id))
	uni, ms := false, false
	for _, r := range rs {
		uni = uni || r.id == id && r.unicode()
		ms = ms || r.id == id && r.microsoft()
	}
	if s == "" {
		vsym.Assert(!uni && !ms, "a Unicode or Microsoft record is used")
		return
	}
	vsym.Assert(uni || ms, "no record, no name")
	vsym.Assert(len(s) == 1, "one record's text")
	k := int(s[0]) - 'A'
	vsym.Assert(0 <= k && k < n, "one record's text")
	for i, r := range rs {
		if i == k {
			vsym.Assert(r.id == id, "a record with that id")
			vsym.Assert(r.unicode() || !uni && r.microsoft(), "a Unicode record is preferred")
		}
	}
}

// HNone: no name table, or none to speak of.
func HNone() {
	f := lib.NewFont(1, 1, 1000)
	switch vsym.Choice("table", 3) {
	case 1:
		f.Set("name", vsym.Bytes("name", vsym.Choice("len", 6)))
	case 2:
		f.Set("name", table(nil, vsym.Bytes("str", 4)))
	}
	t := lib.MustParse(f)
	vsym.Assert(t.Name(truetype.NameID(vsym.U16("want"))) == "", "no record, no name")
}
