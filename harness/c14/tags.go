package c14

import (
	"bytes"

	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt/internal/verifh/hx"
	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

// sys is a language system; an empty lang is the default of the script.
type sys struct {
	script, lang string
	req          uint16
	opt          []uint16
}

const numFeatures = 4

// makeGsub is an independent writer for a table with a script list.
func makeGsub(ss []*sys) []byte {
	w := func(b []byte, x int) []byte { return append(b, byte(x>>8), byte(x)) }
	var scr []string
	by := map[string][]*sys{}
	for _, s := range ss {
		if by[s.script] == nil {
			scr = append(scr, s.script)
		}
		by[s.script] = append(by[s.script], s)
	}
	var list []byte
	list = w(list, len(scr))
	var body []byte
	for _, name := range scr {
		list = append(list, name...)
		list = w(list, 2+6*len(scr)+len(body))
		var def *sys
		var rest []*sys
		for _, s := range by[name] {
			if s.lang == "" {
				def = s
			} else {
				rest = append(rest, s)
			}
		}
		var sb, lb []byte
		base := 4 + 6*len(rest)
		put := func(s *sys) int {
			o := base + len(lb)
			lb = w(lb, 0)
			lb = w(lb, int(s.req))
			lb = w(lb, len(s.opt))
			for _, f := range s.opt {
				lb = w(lb, int(f))
			}
			return o
		}
		if def != nil {
			sb = w(sb, put(def))
		} else {
			sb = w(sb, 0)
		}
		sb = w(sb, len(rest))
		for _, s := range rest {
			sb = append(sb, s.lang...)
			sb = w(sb, put(s))
		}
		body = append(append(body, sb...), lb...)
	}
	list = append(list, body...)

	var feat []byte
	feat = w(feat, numFeatures)
	for i := 0; i < numFeatures; i++ {
		feat = append(feat, "tst"+string(rune('0'+i))...)
		feat = w(feat, 2+6*numFeatures+4*i)
	}
	for i := 0; i < numFeatures; i++ {
		feat = append(feat, 0, 0, 0, 0)
	}
	data := []byte{0, 1, 0, 0}
	data = w(data, 10)
	data = w(data, 10+len(list))
	data = w(data, 10+len(list)+len(feat))
	data = append(data, list...)
	data = append(data, feat...)
	return append(data, 0, 0)
}

// parseGsub is an independent reader.
func parseGsub(data []byte) []*sys {
	p := hx.U16(data, 4)
	n := hx.U16(data, p)
	var res []*sys
	prev := ""
	for i := 0; i < n; i++ {
		q := p + 2 + 6*i
		script := string(data[q : q+4])
		vsym.Assert(i == 0 || prev < script, "tags: scripts not sorted")
		prev = script
		base := p + hx.U16(data, q+4)
		get := func(o int, lang string) {
			q := base + o
			vsym.Assert(hx.U16(data, q) == 0, "tags: lookup order")
			s := &sys{script, lang, uint16(hx.U16(data, q+2)), nil}
			k := hx.U16(data, q+4)
			for j := 0; j < k; j++ {
				s.opt = append(s.opt, uint16(hx.U16(data, q+6+2*j)))
			}
			res = append(res, s)
		}
		if o := hx.U16(data, base); o != 0 {
			get(o, "")
		}
		m := hx.U16(data, base+2)
		prevLang := ""
		for j := 0; j < m; j++ {
			q := base + 4 + 6*j
			l := string(data[q : q+4])
			vsym.Assert(j == 0 || prevLang < l, "tags: languages not sorted")
			prevLang = l
			get(hx.U16(data, q+4), l)
		}
	}
	return res
}

func sameSys(a, b *sys) bool {
	if a.script != b.script || a.lang != b.lang || len(a.opt) != len(b.opt) {
		return false
	}
	ok := a.req == b.req
	for i := range a.opt {
		ok = vsym.And(ok, a.opt[i] == b.opt[i])
	}
	return ok
}

// checkTags sends the language systems through the library.
func checkTags(ss []*sys) *gtab.Info {
	info, err := gtab.Read(bytes.NewReader(makeGsub(ss)), gtab.TypeGsub)
	vsym.Assert(err == nil, "tags: valid table rejected")
	vsym.Assert(len(info.ScriptList) == len(ss), "tags: language systems lost or merged")
	data := info.Encode()
	rr := parseGsub(data)
	vsym.Assert(len(rr) == len(ss), "tags: language systems not written")
	for _, s := range ss {
		ok := false
		for _, r := range rr {
			ok = vsym.Or(ok, sameSys(r, s))
		}
		vsym.Assert(ok, "tags: script, language or features changed")
	}
	info2, err := gtab.Read(bytes.NewReader(data), gtab.TypeGsub)
	vsym.Assert(err == nil, "tags: own output rejected")
	vsym.Assert(len(info2.ScriptList) == len(info.ScriptList), "tags: tags lost")
	for tag := range info.ScriptList {
		vsym.Assert(info2.ScriptList[tag] != nil, "tags: BCP 47 tag changed")
	}
	return info
}

func (s *sys) fill() *sys {
	s.req = vsym.Uint16()
	vsym.Assume(vsym.Or(s.req < numFeatures, s.req == 0xffff))
	n := int(vsym.Choose(3))
	for i := 0; i < n; i++ {
		x := vsym.Uint16()
		vsym.Assume(x < numFeatures)
		s.opt = append(s.opt, x)
	}
	return s
}

// H_Scripts: every script tag.
//
//gosym: quick=10 thorough=60
func H_Scripts() {
	s := scripts[vsym.Choose(len(scripts))]
	l := []string{"", "DEU ", "ZHT ", "PGR "}[vsym.Choose(4)]
	checkTags([]*sys{{script: s, lang: l, req: 0xffff, opt: []uint16{1}}})
}

// H_Langs: every language system tag.
//
//gosym: quick=16 thorough=240
func H_Langs() {
	l := langs[vsym.Choose(len(langs))]
	ss := []string{"latn", "DFLT", "yi  ", "dev2"}
	if vsym.Thorough() {
		ss = scripts
	}
	s := ss[vsym.Choose(len(ss))]
	checkTags([]*sys{{script: s, lang: l, req: 0xffff, opt: []uint16{1}}})
}

// H_Pairs: several language systems in one list.
//
//gosym: quick=14 thorough=120
func H_Pairs() {
	i := int(vsym.Choose(16))
	j := int(vsym.Choose(24))
	n := 1 + int(vsym.Choose(3))
	var ss []*sys
	for k := 0; k < n; k++ {
		script := scripts[(i*11+k/2*(1+i))%len(scripts)]
		lang := langs[(j*26+k*(1+j))%len(langs)]
		if k == 0 && vsym.Bool() {
			lang = ""
		}
		s := (&sys{script: script, lang: lang}).fill()
		for _, o := range ss {
			if o.script == script && o.lang == lang {
				return
			}
		}
		ss = append(ss, s)
	}
	checkTags(ss)
}

// H_AllTags: all scripts (or all languages of one script) in one list.
//
//gosym: quick=10 thorough=120 steps=100000000
func H_AllTags() {
	var ss []*sys
	if vsym.Bool() {
		for i, s := range scripts {
			l := ""
			if i%2 == 1 {
				l = langs[i*3%len(langs)]
			}
			ss = append(ss, &sys{script: s, lang: l, req: uint16(i % 4), opt: []uint16{uint16((i + 1) % 4)}})
		}
	} else {
		s := scripts[vsym.Choose(len(scripts))]
		ll := langs
		if !vsym.Thorough() {
			ll = langs[:90]
		}
		for i, l := range ll {
			ss = append(ss, &sys{script: s, lang: l, req: uint16(i % 4), opt: []uint16{uint16((i + 1) % 4)}})
		}
		ss = append(ss, &sys{script: s, req: 0xffff})
	}
	checkTags(ss)
}

// H_Unknown: unknown tags do not disturb the others.
//
//gosym: quick=8 thorough=60
func H_Unknown() {
	b := vsym.Bytes(4)
	c := vsym.Bytes(4)
	for i := range b {
		vsym.Assume(vsym.And(b[i] >= 32, b[i] < 127))
		vsym.Assume(vsym.And(c[i] >= 32, c[i] < 127))
	}
	known := &sys{script: "latn", lang: "DEU ", req: 0xffff, opt: []uint16{2}}
	ss := []*sys{{script: "latn", lang: "", req: 1}, known}
	switch vsym.Choose(2) {
	case 0:
		ss = append(ss, &sys{script: string(b), req: 2})
	case 1:
		ss = append(ss, &sys{script: "latn", lang: string(c), req: 2})
	}
	vsym.Assume(string(b) != "latn" && string(c) != "DEU ")
	info, err := gtab.Read(bytes.NewReader(makeGsub(ss)), gtab.TypeGsub)
	vsym.Assert(err == nil, "tags: unknown tag rejected")
	rr := parseGsub(info.Encode())
	for i, s := range ss {
		ok := false
		for _, r := range rr {
			ok = vsym.Or(ok, sameSys(r, s))
		}
		vsym.Assert(vsym.Implies(i < 2 || len(rr) == 3, ok), "tags: language system lost")
	}
	vsym.Assert(len(rr) == len(info.ScriptList), "tags: wrong number of language systems")
}

// H_Plain: BCP 47 tags without private-use parts.
//
//gosym: quick=10 thorough=60
func H_Plain() {
	list := []string{"und-Zzzz", "und-Latn", "en", "de", "de-Latn", "el", "ru", "sr-Cyrl", "sr-Latn", "tr", "zh", "zh-Hans", "zh-Hant", "ar", "he",
		"hi", "th", "und-Grek", "und-Cyrl", "und-Arab", "nl-Latn", "ro-Latn", "fr", "vi", "fa", "ur", "und-Deva", "und-Taml"}
	i := int(vsym.Choose(len(list)))
	tag := language.MustParse(list[i])
	feat := make([]*gtab.Feature, numFeatures)
	for i := range feat {
		feat[i] = &gtab.Feature{Tag: "tst" + string(rune('0'+i))}
	}
	info := &gtab.Info{ScriptList: gtab.ScriptListInfo{tag: {Required: 0xffff, Optional: []gtab.FeatureIndex{3}}}, FeatureList: feat}
	data := info.Encode()
	info2, err := gtab.Read(bytes.NewReader(data), gtab.TypeGsub)
	vsym.Assert(err == nil, "tags: own output rejected")
	vsym.Assert(len(info2.ScriptList) == 1, "tags: plain tag lost")
	for t, f := range info2.ScriptList {
		vsym.Assert(len(f.Optional) == 1 && f.Optional[0] == 3 && f.Required == 0xffff, "tags: features changed")
		b1, _ := tag.Base()
		b2, _ := t.Base()
		vsym.Assert(b1 == b2 || list[i][:3] == "und", "tags: language changed")
		s1, _ := tag.Script()
		s2, _ := t.Script()
		vsym.Assert(s1 == s2 || (list[i][:2] == "zh"), "tags: script changed")
	}
	vsym.Assert(vsym.EqBytes(info2.Encode(), data), "tags: second encoding differs")
}
