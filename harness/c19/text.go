package c19

import (
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/internal/vsym"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/builder"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

// parse runs the parser on an arbitrary text.  It checks that the parser
// terminates without panic or stuck goroutine, and that errors carry a line
// number of the text.
func parse(f *sfnt.Font, text string) (gtab.LookupList, error) {
	vsym.StepLimit(1<<18 + 4096*len(text))
	got, err := builder.Parse(f, text)
	vsym.StepCheck()
	vsym.Assert(vsym.Quiesce() == 0, "goroutine left running")
	if err == nil {
		return got, nil
	}
	msg := vsym.ErrorText(err)
	line, i := 0, 0
	for i < len(msg) && msg[i] >= '0' && msg[i] <= '9' && i < 6 {
		line = 10*line + int(msg[i]-'0')
		i++
	}
	vsym.Assert(i > 0 && i < len(msg) && msg[i] == ':', "error does not start with a line number")
	max := 1
	for j := 0; j < len(text); j++ {
		max += vsym.IteInt(text[j] == '\n', 1, 0)
	}
	vsym.Assert(vsym.And(line >= 1, line <= max), "line number in error is not a line of the text")
	return nil, err
}

// again checks that lookups which come from a text are described faithfully.
func again(f *sfnt.Font, pos bool, ll gtab.LookupList) {
	if len(ll) == 0 {
		return
	}
	if pos {
		checkGpos(f, ll...)
	} else {
		checkGsub(f, ll...)
	}
}

var gsubTexts = []string{
	"GSUB1: A->B, M->N\nGSUB1: A-C -> B-D, E->F, F->A",
	"GSUB2: -base A -> \"AA\", B -> C \"D\" E, 6 -> 1 2",
	"GSUB3: A -> [ \"BCD\" ], B -> [D-A]; ",
	"GSUB4: -marks -ligs A A A -> B, A -> D,\n A A -> C # comment\n",
	"GSUB5:\n\t\"AAA\" -> 1@0 2@1 1@0, \"AAB\" -> 1@0 1@1 ||\n class :a: = [A-C]\nclass :d: = [D-F]\n /A B/ :a: :d: -> 2@1, :a: :: -> 2@2 ||\n [A B] [C] -> 3@0",
	"GSUB6: A B | C D | E F -> 1@0 2@1, B | C D |-> ||\ninputclass :A: = [\"AB\"] backtrackclass :D: = [\"DE\"]\nlookaheadclass :D: = [\"DE\"]\n/A B/ :D: :: | :A: | :D: -> 1@0 ||\n[A] [A B] | [A] | [B] -> 1@0",
	"GSUB6: -base | [A B] [C] | -> 1@1 || | A | B -> || /A/ | :: :: | :: -> 1@0",
}

var gposTexts = []string{
	"GPOS1: [A-C] -> y+10 ||\n D -> dx-1, E -> dx+1 x+2 y-3, F -> _",
	"GPOS2: -ligs A D -> dx-100, B B -> y+100 dx-50 & y-100, \"AD\" -> _",
	"GPOS2:\n/A B C/ first D E, A B;\nsecond E F, C D;\n _, _, _,\n _, dx-50 & y-10, dx+10,\n _, dx-10 & y+10, dx-30",
	"GPOS3: A: 1,1 to 2,2; B: 1,0 to 0,1;\n C: -1,-1 to 100,100 ||\n D: 1,1 to 2,2; E: 1,1 to 2,2",
	"GPOS4: -marks\n mark A: 0@100,100;\n mark B: 1@200,100;\n base C: @400,1000 @500,1000;\n base D: @5,10, @6,9 || mark C: 0@1,2; base A: @1,2",
}

func template() (string, bool) {
	k := vsym.Choose(len(gsubTexts) + len(gposTexts))
	if k < len(gsubTexts) {
		return gsubTexts[k], false
	}
	return gposTexts[k-len(gsubTexts)], true
}

// H_Bytes replaces one byte of a valid description with an arbitrary byte, or
// inserts an arbitrary byte.
//
//gosym: quick=20 thorough=300
func H_Bytes() {
	text, pos := template()
	f := font(vsym.Choose(2) * 2)
	i := vsym.Choose(len(text))
	b := []byte(text)
	b[i] = vsym.Byte()
	if vsym.Bool() {
		// insert instead of replace
		c := b[i]
		b = append(append(append([]byte(nil), text[:i]...), c), text[i:]...)
	}
	got, err := parse(f, string(b))
	if err == nil {
		again(f, pos, got)
	}
}

// words splits a text at spaces, and before and after punctuation.
func words(s string) []string {
	var res []string
	start := 0
	flush := func(i int) {
		if i > start {
			res = append(res, s[start:i])
		}
		start = i
	}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ', '\t', '\n', ':', ',', ';', '[', ']', '/', '@', '&', '=', '#':
			flush(i)
			flush(i + 1)
			start = i + 1
			if len(res) == 0 || res[len(res)-1] != s[i:i+1] {
				res = append(res, s[i:i+1])
			}
		}
	}
	flush(len(s))
	return res
}

var replacements = []string{
	"", "->", "-", "|", "||", "\n", ":", "::", "[", "]", "/", "@", "&", ";", ",", "=", "#", "A", "B", "-A", "A-", "H-A", "\"\"", "\"A\"",
	"\"x\"", "\"A", "\"\\", "\"A\x00", "0", "8", "9", "-1", "+2", "+", "65535", "65536", "99999999999999999999", "-99999999999999999999", "_", "x", "dx", "y",
	"x+", "x-40000", "to", "mark", "base", "class", "inputclass", "first", "second", "GSUB1", "GSUB5", "GPOS2", "GPOS4",
	"GPOS9", "\x00", "\xff", "\u00e9", "(", "marks", "-marks", "-rtl", ":a:", ":q:", "1@0", "1@-1", "70000@1",
}

// H_Tokens deletes, replaces, duplicates or inserts a token of a valid
// description, or stops the description there.
//
//gosym: quick=25 thorough=400
func H_Tokens() {
	text, pos := template()
	f := font(vsym.Choose(4))
	ww := words(text)
	i := vsym.Choose(len(ww))
	var b []byte
	r := vsym.Choose(len(replacements) + 2)
	ins := vsym.Bool()
	for j, w := range ww {
		if j == i {
			switch {
			case r == len(replacements): // truncate
				_, err := parse(f, string(b))
				_ = err
				return
			case r == len(replacements)+1: // duplicate
				b = append(append(b, w...), ' ')
				b = append(b, w...)
			default:
				b = append(append(b, replacements[r]...), ' ')
				if ins {
					b = append(b, w...)
				}
			}
			continue
		}
		b = append(b, w...)
	}
	_ = pos
	parse(f, string(b))
}

// H_Text parses short arbitrary texts.
//
//gosym: quick=25 thorough=400
func H_Text() {
	prefix := []string{"", "GSUB1:", "GSUB4: A", "GPOS1: A -> ", "GPOS4: mark", "GSUB5: class:", "GSUB6: |", "GPOS2: /A/ first", "GSUB2: A -> \"", "GPOS3: A:1,", "GSUB3: 3->"}
	n := 4
	if vsym.Thorough() {
		n = 6
	}
	k := vsym.Choose(len(prefix))
	m := vsym.Choose(n + 1)
	parse(font(0), prefix[k]+string(vsym.Bytes(m)))
}

// H_Numbers checks the meaning of numbers.
//
//gosym: quick=10 thorough=60
func H_Numbers() {
	n := 1 + vsym.Choose(6)
	d := vsym.Bytes(n)
	v := 0
	for i := range d {
		vsym.Assume(vsym.And(d[i] >= '0', d[i] <= '9'))
		v = 10*v + int(d[i]-'0')
	}
	num := string(d)
	f := font(0)
	sign := ""
	switch vsym.Choose(3) {
	case 1:
		sign = "+"
	case 2:
		sign = "-"
		v = -v
	}
	is16 := vsym.And(v >= -32768, v <= 32767)
	isU16 := vsym.And(v >= 0, v <= 65535)
	x := funit.Int16(v)
	switch vsym.Choose(7) {
	case 0:
		if sign == "" {
			sign = " "
		}
		which := vsym.Choose(3)
		got, err := parse(f, "GPOS1: A -> "+[]string{"x", "y", "dx"}[which]+sign+num)
		vsym.Assert((err == nil) == is16, "value record accepted iff number in range")
		if err == nil {
			r := &gtab.GposValueRecord{}
			switch which {
			case 0:
				r.XPlacement = x
			case 1:
				r.YPlacement = x
			case 2:
				r.XAdvance = x
			}
			if v == 0 {
				r = nil
			}
			want(got, lookup(1, 0, &gtab.Gpos1_2{Cov: cov([]glyph.ID{1}), Adjust: []*gtab.GposValueRecord{r}}))
		}
	case 1:
		got, err := parse(f, "GPOS3: A:"+sign+num+",2 to 3,-4")
		vsym.Assert((err == nil) == is16, "coordinate accepted iff number in range")
		if err == nil {
			want(got, lookup(3, 0, &gtab.Gpos3_1{Cov: cov([]glyph.ID{1}), Records: []gtab.EntryExitRecord{{Entry: anchor.Table{X: x, Y: 2}, Exit: anchor.Table{X: 3, Y: -4}}}}))
		}
	case 2:
		got, err := parse(f, "GPOS4: mark A: 0@1,"+sign+num+"; base B: @5,6")
		vsym.Assert((err == nil) == is16, "coordinate accepted iff number in range")
		if err == nil {
			want(got, lookup(4, 0, &gtab.Gpos4_1{MarkCov: cov([]glyph.ID{1}), BaseCov: cov([]glyph.ID{2}),
				MarkArray: []markarray.Record{{Class: 0, Table: anchor.Table{X: 1, Y: x}}},
				BaseArray: [][]anchor.Table{{{X: 5, Y: 6}}}}))
		}
	case 3, 4:
		text, act := "GSUB5: A -> "+sign+num+"@3", gtab.SeqLookup{LookupListIndex: gtab.LookupIndex(v), SequenceIndex: 3}
		if vsym.Bool() {
			text, act = "GSUB5: A -> 3@"+sign+num, gtab.SeqLookup{LookupListIndex: 3, SequenceIndex: uint16(v)}
		}
		got, err := parse(f, text)
		vsym.Assert((err == nil) == isU16, "action accepted iff number in range")
		if err == nil {
			want(got, lookup(5, 0, &gtab.SeqContext1{Cov: cov([]glyph.ID{1}), Rules: [][]*gtab.SeqRule{{{Actions: []gtab.SeqLookup{act}}}}}))
		}
	case 5:
		vsym.Assume(sign != "-")
		got, err := parse(f, "GSUB2: A -> "+sign+num)
		vsym.Assert((err == nil) == (v < numGlyphs), "glyph ID accepted iff in range")
		if err == nil {
			want(got, lookup(2, 0, &gtab.Gsub2_1{Cov: cov([]glyph.ID{1}), Repl: [][]glyph.ID{{glyph.ID(v)}}}))
		}
	case 6:
		vsym.Assume(sign != "-")
		got, err := parse(f, "GPOS4: mark A: "+sign+num+"@1,2")
		vsym.Assert((err == nil) == (v == 0), "mark classes must be consecutive")
		if err == nil {
			want(got, lookup(4, 0, &gtab.Gpos4_1{MarkCov: cov([]glyph.ID{1}), MarkArray: []markarray.Record{{Class: 0, Table: anchor.Table{X: 1, Y: 2}}}}))
		}
	}
}

func want(got gtab.LookupList, ll ...*gtab.LookupTable) {
	vsym.AssertEqual(got, gtab.LookupList(ll), "wrong lookups")
}

// token writes a glyph as a name, number or string.
func token(g glyph.ID) string {
	switch vsym.Choose(3) {
	case 0:
		return string([]byte{'A' + byte(g) - 1})
	case 1:
		return string([]byte{'0' + byte(g)})
	default:
		return "\"" + string([]byte{'A' + byte(g) - 1}) + "\""
	}
}

func letter() glyph.ID { return glyph.ID(vsym.Concrete(vsym.Int(1, numGlyphs-1))) }

func span(a, b glyph.ID) []glyph.ID {
	var res []glyph.ID
	if a <= b {
		for g := a; g <= b; g++ {
			res = append(res, g)
		}
	} else {
		for g := a; g >= b; g-- {
			res = append(res, g)
		}
	}
	return res
}

// H_Ranges checks the meaning of ranges and lists.
//
//gosym: quick=10 thorough=60
func H_Ranges() {
	f := font(0)
	a, b, c := letter(), letter(), letter()
	sep := []string{"-", " - ", "- "}[vsym.Choose(3)]
	text := token(a) + sep + token(b)
	gg := span(a, b)
	switch vsym.Choose(3) {
	case 0:
		text += " " + token(c)
		gg = append(gg, c)
	case 1:
		text += sep + token(c)
		gg = append(gg, span(b, c)[1:]...)
	case 2:
		text = token(c) + " " + text
		gg = append([]glyph.ID{c}, gg...)
	}
	switch vsym.Choose(3) {
	case 0:
		got, err := parse(f, "GSUB2: A -> "+text)
		vsym.Assert(err == nil, "valid range is refused")
		want(got, lookup(2, 0, &gtab.Gsub2_1{Cov: cov([]glyph.ID{1}), Repl: [][]glyph.ID{gg}}))
	case 1:
		got, err := parse(f, "GSUB3: A -> ["+text+"]")
		vsym.Assert(err == nil, "valid set is refused")
		want(got, lookup(3, 0, &gtab.Gsub3_1{Cov: cov([]glyph.ID{1}), Alternates: [][]glyph.ID{sorted(gg)}}))
	case 2:
		// the substitute glyphs are listed explicitly
		to := text
		got, err := parse(f, "GSUB1: "+text+" -> "+to)
		s := sorted(gg)
		vsym.Assert((err == nil) == (len(s) == len(gg)), "refused iff there are duplicates")
		if err == nil {
			want(got, lookup(1, 0, &gtab.Gsub1_1{Cov: set(s), Delta: 0}))
		}
	}
}

func sorted(gg []glyph.ID) []glyph.ID {
	seen := set(gg)
	var res []glyph.ID
	for g := glyph.ID(0); g < numGlyphs; g++ {
		if seen[g] {
			res = append(res, g)
		}
	}
	return res
}

// H_Strings checks the meaning of quoted strings.
//
//gosym: quick=10 thorough=100
func H_Strings() {
	f := font([]int{0, 5, 1}[vsym.Choose(3)])
	cm := map[rune]glyph.ID{}
	if sub, err := f.CMapTable.GetBest(); err == nil {
		for r := rune(1); r < 256; r++ {
			if g := sub.Lookup(r); g != 0 {
				cm[r] = g
			}
		}
	}
	n := 1 + vsym.Choose(3)
	b := vsym.Bytes(n)
	for i := range b {
		vsym.Assume(vsym.And(b[i] != 0, b[i] != '\n', b[i] < 128))
	}
	// decode the string body
	var gg []glyph.ID
	ok := true
	esc := false
	for _, c := range b {
		if esc {
			esc = false
			switch c {
			case 'n':
				c = '\n'
			case 'r':
				c = '\r'
			case 't':
				c = '\t'
			}
		} else if c == '\\' {
			esc = true
			continue
		} else if c == '"' {
			// end of string, the rest is something else
			return
		}
		g, has := cm[rune(c)]
		if !has {
			ok = false
		}
		gg = append(gg, g)
	}
	got, err := parse(f, "GSUB2: 1 -> \""+string(b)+"\"")
	if esc || !ok || len(gg) == 0 {
		vsym.Assert(err != nil, "invalid string is accepted")
		return
	}
	vsym.Assert(err == nil, "valid string is refused")
	want(got, lookup(2, 0, &gtab.Gsub2_1{Cov: cov([]glyph.ID{1}), Repl: [][]glyph.ID{gg}}))
}

// H_Syntax checks the meaning of the documented examples.
func H_Syntax() {
	f := font(0)
	act := func(xx ...int) []gtab.SeqLookup {
		var res []gtab.SeqLookup
		for i := 0; i < len(xx); i += 2 {
			res = append(res, gtab.SeqLookup{LookupListIndex: gtab.LookupIndex(xx[i]), SequenceIndex: uint16(xx[i+1])})
		}
		return res
	}
	const A, B, C, D, E, F = 1, 2, 3, 4, 5, 6
	type gl = []glyph.ID
	// The tests in the first column have the same meaning.
	cases := []struct {
		texts []string
		want  []*gtab.LookupTable
	}{
		{[]string{"", "\n", ";", "# comment", " \t\r\n ; # comment\n;\n"}, nil},
		{[]string{"GSUB1: A->B", "GSUB1 A -> B", "GSUB1:\nA -> B\n", "GSUB1: \"A\"->2;", "# x\nGSUB1: A->B # y\n"},
			[]*gtab.LookupTable{lookup(1, 0, &gtab.Gsub1_1{Cov: set(gl{A}), Delta: 1})}},
		{[]string{"GSUB1: A B -> B A", "GSUB1: A -> B, B -> A", "GSUB1: B -> A,\n\tA -> B", "GSUB1: \"AB\" -> \"BA\"", "GSUB1: A-B -> B-A"},
			[]*gtab.LookupTable{lookup(1, 0, &gtab.Gsub1_2{Cov: cov(gl{A, B}), SubstituteGlyphIDs: gl{B, A}})}},
		{[]string{"GSUB1: A->B\nGSUB2: A->B C", "GSUB1: A->B; GSUB2: A->B C", "GSUB1: A->B GSUB2: A->\"BC\""},
			[]*gtab.LookupTable{lookup(1, 0, &gtab.Gsub1_1{Cov: set(gl{A}), Delta: 1}), lookup(2, 0, &gtab.Gsub2_1{Cov: cov(gl{A}), Repl: [][]glyph.ID{{B, C}}})}},
		{[]string{"GSUB4: -marks -ligs -base A -> B", "GSUB4: -base -marks -ligs\nA -> B", "GSUB4 -ligs -base -marks -base\n A -> B"},
			[]*gtab.LookupTable{lookup(4, gtab.IgnoreMarks|gtab.IgnoreLigatures|gtab.IgnoreBaseGlyphs, &gtab.Gsub4_1{Cov: cov(gl{A}), Repl: [][]gtab.Ligature{{{Out: B}}}})}},
		{[]string{"GSUB4: -marks A A A -> B, A -> D, A A -> C", "GSUB4:\n-marks \"AAA\" -> B,\nA -> D, \"AA\" -> C"},
			[]*gtab.LookupTable{lookup(4, gtab.IgnoreMarks, &gtab.Gsub4_1{Cov: cov(gl{A}), Repl: [][]gtab.Ligature{{{In: gl{A, A}, Out: B}, {Out: D}, {In: gl{A}, Out: C}}}})}},
		{[]string{"GSUB4: -ligs B A -> C, A B -> D"},
			[]*gtab.LookupTable{lookup(4, gtab.IgnoreLigatures, &gtab.Gsub4_1{Cov: cov(gl{A, B}), Repl: [][]gtab.Ligature{{{In: gl{B}, Out: D}}, {{In: gl{A}, Out: C}}}})}},
		{[]string{"GSUB3: A -> [D B C]", "GSUB3: A -> [\"DCBB\"]", "GSUB3: A -> [D-B]"},
			[]*gtab.LookupTable{lookup(3, 0, &gtab.Gsub3_1{Cov: cov(gl{A}), Alternates: [][]glyph.ID{{B, C, D}}})}},
		{[]string{"GSUB5: \"AAA\" -> 1@0 2@1 1@0, \"AAB\" -> 3@2", "GSUB5:\n\tA A A -> 1@0 2@1 1@0,\n\tA A B -> 3@2\n"},
			[]*gtab.LookupTable{lookup(5, 0, &gtab.SeqContext1{Cov: cov(gl{A}), Rules: [][]*gtab.SeqRule{{{Input: gl{A, A}, Actions: act(1, 0, 2, 1, 1, 0)}, {Input: gl{A, B}, Actions: act(3, 2)}}}})}},
		{[]string{"GSUB5: class :alpha: = [A-C]\nclass :digits: = [D E]\n/A B/ :alpha: :digits: -> 2@1, :alpha: :: :digits: -> 2@2",
			"GSUB5:\nclass :alpha: [A-C] class :x: [E D] /B A/ :alpha: :x: -> 2@1,\n:alpha: :: :x: -> 2@2"},
			[]*gtab.LookupTable{lookup(5, 0, &gtab.SeqContext2{Cov: cov(gl{A, B}), Input: classdef.Table{A: 1, B: 1, C: 1, D: 2, E: 2},
				Rules: [][]*gtab.ClassSeqRule{nil, {{Input: []uint16{2}, Actions: act(2, 1)}, {Input: []uint16{0, 2}, Actions: act(2, 2)}}, nil}})}},
		{[]string{"GSUB5: class :a: = [A]\n/A/ :a: -> 1@0 || class :a: = [B]\n/B/ :: :a: -> 2@1 || [A] [B C] -> 3@0"},
			[]*gtab.LookupTable{lookup(5, 0,
				&gtab.SeqContext2{Cov: cov(gl{A}), Input: classdef.Table{A: 1}, Rules: [][]*gtab.ClassSeqRule{nil, {{Actions: act(1, 0)}}}},
				&gtab.SeqContext2{Cov: cov(gl{B}), Input: classdef.Table{B: 1}, Rules: [][]*gtab.ClassSeqRule{{{Input: []uint16{1}, Actions: act(2, 1)}}, nil}},
				&gtab.SeqContext3{Input: []coverage.Set{set(gl{A}), set(gl{B, C})}, Actions: act(3, 0)})}},
		{[]string{"GSUB6: A B | C D | E F -> 1@0 2@1, B | C | -> 1@2", "GSUB6: \"AB\" | \"CD\" | \"EF\" -> 1@0 2@1,\n\tB|C|->1@2"},
			[]*gtab.LookupTable{lookup(6, 0, &gtab.ChainedSeqContext1{Cov: cov(gl{C}), Rules: [][]*gtab.ChainedSeqRule{{
				{Backtrack: gl{B, A}, Input: gl{D}, Lookahead: gl{E, F}, Actions: act(1, 0, 2, 1)}, {Backtrack: gl{B}, Actions: act(1, 2)}}}})}},
		{[]string{"GSUB6: inputclass :x: = [A]\nbacktrackclass :x: = [B]\nbacktrackclass :y: = [C]\nlookaheadclass :z: = [D]\n/A E/ :x: :: :y: | :x: :: | :z: :: -> 1@0, | :: | -> 2@0"},
			[]*gtab.LookupTable{lookup(6, 0, &gtab.ChainedSeqContext2{Cov: cov(gl{A, E}), Backtrack: classdef.Table{B: 1, C: 2}, Input: classdef.Table{A: 1}, Lookahead: classdef.Table{D: 1},
				Rules: [][]*gtab.ChainedClassSeqRule{{{Actions: act(2, 0)}}, {{Backtrack: []uint16{2, 0, 1}, Input: []uint16{0}, Lookahead: []uint16{1, 0}, Actions: act(1, 0)}}}})}},
		{[]string{"GSUB6: [A] [B C] | [A B] [D] | [B] [] -> 1@0 1@1", "GSUB6:[A][C-B]|[B A][D]|[B][]->1@0 1@1"},
			[]*gtab.LookupTable{lookup(6, 0, &gtab.ChainedSeqContext3{Backtrack: []coverage.Set{set(gl{B, C}), set(gl{A})}, Input: []coverage.Set{set(gl{A, B}), set(gl{D})},
				Lookahead: []coverage.Set{set(gl{B}), {}}, Actions: act(1, 0, 1, 1)})}},
		{[]string{"GPOS1: [A-C] -> y+10 || D -> dx-1, E -> x+1 y-2 dx+3, F -> _", "GPOS1: [C B A] -> x+0 y+10 ||\n\tF -> x+0,\n\tE -> dx+3 y-2 x+1, D -> dx-1"},
			[]*gtab.LookupTable{lookup(1, 0, &gtab.Gpos1_1{Cov: cov(gl{A, B, C}), Adjust: &gtab.GposValueRecord{YPlacement: 10}},
				&gtab.Gpos1_2{Cov: cov(gl{D, E, F}), Adjust: []*gtab.GposValueRecord{{XAdvance: -1}, {XPlacement: 1, YPlacement: -2, XAdvance: 3}, nil}})}},
		{[]string{"GPOS2: A B -> dx-100, C C -> _ & x+3 || \"DE\" -> y+100 dx-50 & y-100"},
			[]*gtab.LookupTable{lookup(2, 0, gtab.Gpos2_1{{Left: A, Right: B}: {First: &gtab.GposValueRecord{XAdvance: -100}}, {Left: C, Right: C}: {Second: &gtab.GposValueRecord{XPlacement: 3}}},
				gtab.Gpos2_1{{Left: D, Right: E}: {First: &gtab.GposValueRecord{YPlacement: 100, XAdvance: -50}, Second: &gtab.GposValueRecord{YPlacement: -100}}})}},
		{[]string{"GPOS2:\n/A B/\nfirst C, D E;\nsecond F;\n_, dx+1,\ndx+2, dx+3 & dx+4,\ndx+5, _\n", "GPOS2: /B A/ first C, E D; second F; _, dx+1; dx+2, dx+3 & dx+4; dx+5, _;"},
			[]*gtab.LookupTable{lookup(2, 0, &gtab.Gpos2_2{Cov: set(gl{A, B}), Class1: classdef.Table{C: 1, D: 2, E: 2}, Class2: classdef.Table{F: 1},
				Adjust: [][]*gtab.PairAdjust{{{}, {First: adv(1)}}, {{First: adv(2)}, {First: adv(3), Second: adv(4)}}, {{First: adv(5)}, {}}}})}},
		{[]string{"GPOS3: B: 1,2 to 3,4; A: -5,6 to 7,-8 || C: 0,0 to 1,1"},
			[]*gtab.LookupTable{lookup(3, 0, &gtab.Gpos3_1{Cov: cov(gl{A, B}), Records: []gtab.EntryExitRecord{
				{Entry: anchor.Table{X: -5, Y: 6}, Exit: anchor.Table{X: 7, Y: -8}}, {Entry: anchor.Table{X: 1, Y: 2}, Exit: anchor.Table{X: 3, Y: 4}}}},
				&gtab.Gpos3_1{Cov: cov(gl{C}), Records: []gtab.EntryExitRecord{{Exit: anchor.Table{X: 1, Y: 1}}}})}},
		{[]string{"GPOS4: mark A: 1@1,2; mark B: 0@3,4;\nbase C: @5,6 @7,8; base D: @9,10, @11,12"},
			[]*gtab.LookupTable{lookup(4, 0, &gtab.Gpos4_1{MarkCov: cov(gl{A, B}), BaseCov: cov(gl{C, D}),
				MarkArray: []markarray.Record{{Class: 1, Table: anchor.Table{X: 1, Y: 2}}, {Class: 0, Table: anchor.Table{X: 3, Y: 4}}},
				BaseArray: [][]anchor.Table{{{X: 5, Y: 6}, {X: 7, Y: 8}}, {{X: 9, Y: 10}, {X: 11, Y: 12}}}})}},
	}
	k := vsym.Choose(len(cases))
	i := vsym.Choose(len(cases[k].texts))
	got, err := parse(f, cases[k].texts[i])
	vsym.Assert(err == nil, "documented syntax is refused")
	want(got, cases[k].want...)
}

func adv(x funit.Int16) *gtab.GposValueRecord { return &gtab.GposValueRecord{XAdvance: x} }
