SEEDS=[
dict(id='c01-gasp', prop='C01', pkg='.',
 edits=[('read.go','''			data, err := dir.ReadTableBytes(rr, name)
			if err != nil {
				return nil, err
			}
			tables[name] = data''','''			data, err := dir.ReadTableBytes(rr, name)
			if err != nil {
				return nil, err
			}
			if len(data) >= 4 { // otherwise there is no useful data
				tables[name] = data
			}''')],
 needs='a TrueType font with a very short cvt, fpgm, prep or gasp table',
 breaks='short hinting tables disappear when the font is written and read again',
 test='''
package sfnt
import ("bytes";"testing";"os")
var _=os.Stdout
func TestZZDemo(t *testing.T){
	f:=zzFont()
	var b bytes.Buffer
	if _,err:=f.Write(&b);err!=nil {t.Fatal(err)}
	g,err:=Read(bytes.NewReader(b.Bytes()))
	if err!=nil {t.Fatal(err)}
	o:=g.Outlines.(*glyf.Outlines)
	if !bytes.Equal(o.Tables["prep"],[]byte{0xb0,1,0x21}) {t.Fatal(o.Tables)}
}
func zzFont() *Font {
	return &Font{FamilyName:"Test",UnitsPerEm:1000,Outlines:&glyf.Outlines{
		Glyphs:glyf.Glyphs{nil,nil},Widths:[]funit.Int16{500,600},
		Tables:map[string][]byte{"prep":{0xb0,1,0x21}},
		Maxp:&maxp.TTFInfo{},
	}}
}
'''.replace('("bytes";"testing";"os")','("bytes";"testing";"os";"seehuhn.de/go/postscript/funit";"seehuhn.de/go/sfnt/glyf";"seehuhn.de/go/sfnt/maxp")')),
dict(id='c06-markmark-advance', prop='C06', pkg='opentype/gtab',
 edits=[('opentype/gtab/gpos6.go','	for i := p; i < a; i++ {\n','	for i := p + 1; i < a; i++ {\n')],
 needs='mark-to-mark attachment where the first mark has a nonzero advance width',
 breaks='the attached mark is shifted by the advance of the mark it attaches to',
 test='''
package gtab
import ("testing";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/opentype/anchor";"seehuhn.de/go/sfnt/opentype/coverage";"seehuhn.de/go/sfnt/opentype/markarray")
func TestZZDemo(t *testing.T){
	l:=&Gpos6_1{Mark1Cov:coverage.Table{2:0},Mark2Cov:coverage.Table{1:0},
		Mark1Array:[]markarray.Record{{Class:0,Table:anchor.Table{X:10,Y:20}}},
		Mark2Array:[][]anchor.Table{{{X:30,Y:50}}}}
	ll:=LookupList{{Meta:&LookupMetaInfo{LookupType:6},Subtables:[]Subtable{l}}}
	seq:=NewContext(ll,nil,[]LookupIndex{0}).Apply([]glyph.Info{{GID:1,Advance:100},{GID:2}})
	if seq[1].XOffset!=30-10-100||seq[1].YOffset!=30 {t.Fatal(seq)}
}
'''),
dict(id='c06-marktype-zero', prop='C06', pkg='opentype/gtab',
 edits=[('opentype/gtab/filter.go','''		} else if flags&UseMarkFilteringSet != 0 {''','''		} else if flags&UseMarkFilteringSet != 0 && flags&MarkAttachTypeMask == 0 {''')],
 needs='a lookup with both a mark filtering set and a mark attachment type',
 breaks='the mark attachment type wins over the mark filtering set',
 test='''
package gtab
import ("testing";"seehuhn.de/go/sfnt/opentype/gdef";"seehuhn.de/go/sfnt/opentype/classdef";"seehuhn.de/go/sfnt/opentype/coverage")
func TestZZDemo(t *testing.T){
	g:=&gdef.Table{GlyphClass:classdef.Table{1:3,2:3},MarkAttachClass:classdef.Table{1:1,2:2},MarkGlyphSets:[]coverage.Set{{1:true}}}
	k:=newKeepFunc(&LookupMetaInfo{LookupFlags:UseMarkFilteringSet|0x0200},g)
	if !k.Keep(1)||k.Keep(2) {t.Fatal("wrong glyphs kept")}
}
'''),
dict(id='c07-depth', prop='C07', pkg='opentype/gtab',
 edits=[('opentype/gtab/layout.go','		numActions++\n','		numActions = max(1, len(ctx.stack))\n')],
 needs='a long chain of contextual lookups, each of which calls the next one twice',
 breaks='the limit on the number of nested actions turns into a limit on their depth, so that shaping takes exponential time',
 test='''
package gtab
import ("testing";"time";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/opentype/coverage")
func TestZZDemo(t *testing.T){
	var ll LookupList
	for i:=range 45 {
		n:=LookupIndex(i+1)
		l:=&SeqContext1{Cov:coverage.Table{1:0},Rules:[][]*SeqRule{{{Actions:[]SeqLookup{{0,n},{0,n}}}}}}
		ll=append(ll,&LookupTable{Meta:&LookupMetaInfo{LookupType:5},Subtables:[]Subtable{l}})
	}
	done:=make(chan bool)
	go func(){ NewContext(ll,nil,[]LookupIndex{0}).Apply([]glyph.Info{{GID:1}}); done<-true }()
	select{
	case <-done:
	case <-time.After(10*time.Second): t.Fatal("timeout")
	}
}
'''),
dict(id='c09-install', prop='C09', pkg='.',
 edits=[('write.go','	if _, high := s.CodeRange(); high > 0xFFFF {\n','	if low, _ := s.CodeRange(); low > 0xFFFF {\n')],
 needs='a format 12 cmap subtable with characters both inside and outside the BMP',
 breaks='the subtable is installed under the BMP-only platform/encoding ids',
 test='''
package sfnt
import ("testing";"seehuhn.de/go/sfnt/cmap")
func TestZZDemo(t *testing.T){
	f:=&Font{}
	f.InstallCMap(cmap.Format12{0x41:1,0x1F600:2})
	if _,ok:=f.CMapTable[cmap.Key{PlatformID:3,EncodingID:10}];!ok {t.Fatal("wrong key")}
}
'''),
dict(id='c10-fontmatrix', prop='C10', pkg='.',
 edits=[('subset.go','oldOutlines.FontMatrices[oldPIdx])','oldOutlines.FontMatrices[newPIdx])')],
 needs='a CID-keyed font whose FDs have different font matrices, and a subset which does not use a prefix of the FDs',
 breaks='glyphs of the subset get the font matrix of another FD',
 test='''
package sfnt
import ("testing";"seehuhn.de/go/sfnt/cff";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/geom/matrix";"seehuhn.de/go/postscript/cid";"seehuhn.de/go/postscript/type1")
func TestZZDemo(t *testing.T){
	f:=&Font{UnitsPerEm:1000,Outlines:&cff.Outlines{
		Glyphs:[]*cff.Glyph{{},{},{}},
		Private:[]*type1.PrivateDict{{},{}},
		FDSelect:func(g glyph.ID) int { if g==2 {return 0}; return 1 },
		ROS:&cid.SystemInfo{Registry:"Adobe",Ordering:"Identity"},
		GIDToCID:[]cid.CID{0,1,2},
		FontMatrices:[]matrix.Matrix{{1,0,0,1,0,0},{2,0,0,2,0,0}},
	}}
	g:=f.Subset([]glyph.ID{0,1})
	o:=g.Outlines.(*cff.Outlines)
	if o.FontMatrices[o.FDSelect(1)][0]!=2 {t.Fatal(o.FontMatrices)}
}
'''),
dict(id='c10-lig-break', prop='C10', pkg='.',
 edits=[('subset.go','								continue ligLoop\n','								break ligLoop\n')],
 needs='a glyph with two ligatures, of which the first one is not available in the subset',
 breaks='all later ligatures of the glyph are lost',
 test='''
package sfnt
import ("testing";"seehuhn.de/go/sfnt/glyf";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/postscript/funit";"seehuhn.de/go/sfnt/opentype/gtab";"seehuhn.de/go/sfnt/opentype/coverage")
func TestZZDemo(t *testing.T){
	f:=&Font{UnitsPerEm:1000,Outlines:&glyf.Outlines{Glyphs:make(glyf.Glyphs,6),Widths:make([]funit.Int16,6)},
	Gsub:&gtab.Info{LookupList:gtab.LookupList{{Meta:&gtab.LookupMetaInfo{LookupType:4},Subtables:[]gtab.Subtable{
		&gtab.Gsub4_1{Cov:coverage.Table{1:0},Repl:[][]gtab.Ligature{{{In:[]glyph.ID{2},Out:4},{In:[]glyph.ID{3},Out:5}}}},
	}}}}}
	g:=f.Subset([]glyph.ID{0,1,3})
	if len(g.Gsub.LookupList[0].Subtables)!=1 {t.Fatal("rule lost")}
}
'''),
dict(id='c13-fdselect-segments', prop='C13', pkg='cff',
 edits=[('cff/fdselect.go','	buf[1], buf[2] = byte(nSeg>>8), byte(nSeg)\n','	buf[2] = byte(nSeg)\n')],
 needs='a CID-keyed font with more than 255 FDSelect ranges, long enough that format 3 is used',
 breaks='the number of ranges is written modulo 256',
 test='''
package cff
import ("testing";"bytes";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/parser")
func TestZZDemo(t *testing.T){
	n:=2000
	f:=FDSelectFn(func(g glyph.ID) int { return int(g)/5%2 })
	b:=f.encode(n)
	g,err:=readFDSelect(parser.New(bytes.NewReader(b)),n,2)
	if err!=nil {t.Fatal(err)}
	for i:=range n { if g(glyph.ID(i))!=f(glyph.ID(i)) {t.Fatal(i)}}
}
'''),
dict(id='c13-charset-max', prop='C13', pkg='cff',
 edits=[('cff/charset.go','''				chunk := length
				if chunk > 256 {
					chunk = 256
				}
''','''				chunk := length
				if chunk > 257 {
					chunk = 256
				}
''')],
 needs='a run of 257 consecutive glyph names or CIDs, encoded with charset format 1',
 breaks='such a run is written as a run of length one',
 test='''
package cff
import ("testing";"bytes";"seehuhn.de/go/sfnt/parser")
func TestZZDemo(t *testing.T){
	names:=[]int32{0}
	for i:=range 257 {names=append(names,int32(1000+i))}
	for i:=range 40 {names=append(names,int32(2000+10*i),int32(2001+10*i),int32(2002+10*i))}
	b,err:=encodeCharset(names)
	if err!=nil {t.Fatal(err)}
	got,err:=readCharset(parser.New(bytes.NewReader(b)),len(names))
	if err!=nil {t.Fatal(err)}
	for i:=range names {if got[i]!=names[i] {t.Fatal(i)}}
}
'''),
dict(id='c14-utf16', prop='C14', pkg='name',
 edits=[('name/name.go','''	rr := utf16.Encode([]rune(s))
''','''	rr := []rune(s)
''')],
 needs='a Windows name with a character outside the BMP',
 breaks='such characters are truncated to 16 bits instead of being written as surrogate pairs',
 test='''
package name
import "testing"
func TestZZDemo(t *testing.T){
	s:="A\\U0001F600B"
	i:=&Info{Windows:Tables{"en-US":&Table{Family:s}}}
	j,err:=Decode(i.Encode(1))
	if err!=nil {t.Fatal(err)}
	if j.Windows["en-US"].Family!=s {t.Fatal("wrong name")}
}
'''),
dict(id='c14-sort', prop='C14', pkg='name',
 edits=[('name/name.go','''		if records[i].LanguageID != records[j].LanguageID {
			return records[i].LanguageID < records[j].LanguageID
		}
		return records[i].NameID < records[j].NameID''','''		if records[i].NameID != records[j].NameID {
			return records[i].NameID < records[j].NameID
		}
		return records[i].LanguageID < records[j].LanguageID''')],
 needs='names in two languages of the same platform',
 breaks='the name records are not sorted by language id before name id, as the format requires',
 test='''
package name
import "testing"
func TestZZDemo(t *testing.T){
	i:=&Info{Windows:Tables{"en-US":&Table{Family:"a",Subfamily:"b"},"de-DE":&Table{Family:"c",Subfamily:"d"}}}
	b:=i.Encode(1)
	n:=int(b[2])<<8|int(b[3])
	prev:=-1
	for k:=range n {
		r:=b[6+12*k:]
		v:=int(r[1])<<48|int(r[3])<<40|int(r[4])<<32|int(r[5])<<24|int(r[6])<<8|int(r[7])
		if v<=prev {t.Fatal("not sorted")}
		prev=v
	}
}
'''),
dict(id='c15-lig-break', prop='C15', pkg='.',
 edits=[('ligatures.go','				continue ligLoop\n','				break ligLoop\n')],
 needs='a font without GSUB table which has characters for some, but not the first, of the standard ligatures',
 breaks='fonts without a ffi ligature lose all the other standard ligatures',
 test='''
package sfnt
import ("testing";"seehuhn.de/go/sfnt/cmap")
func TestZZDemo(t *testing.T){
	if standardLigatures(cmap.Format4{'f':1,'i':2,0xFB01:3})==nil {t.Fatal("no fi ligature")}
}
'''),
dict(id='c15-kern-min', prop='C15', pkg='kern',
 edits=[('kern/kern.go','''			if isMinimum {
				if res[key] < value {
					res[key] = value
				}
			} else if isOverride {''','''			if isMinimum {
				if old, ok := res[key]; ok && old < value {
					res[key] = value
				}
			} else if isOverride {''')],
 needs='a kern table with a minimum subtable for a pair with no kerning otherwise',
 breaks='the minimum is ignored for such pairs',
 test='''
package kern
import ("testing";"bytes";"seehuhn.de/go/sfnt/glyph")
func TestZZDemo(t *testing.T){
	d:=[]byte{0,0,0,1, 0,0,0,20,0,3, 0,1,0,6,0,0,0,0, 0,1,0,2,0,50}
	i,err:=Read(bytes.NewReader(d))
	if err!=nil {t.Fatal(err)}
	if i[glyph.Pair{Left:1,Right:2}]!=50 {t.Fatal(i)}
}
'''),
dict(id='c16-fdcache', prop='C16', pkg='cff', flags='-race',
 edits=[('cff/fdselect.go','''		return func(gid glyph.ID) int {
			idx := sort.Search(int(nRanges),
				func(i int) bool { return gid < end[i] })
			return int(fdIdx[idx])
		}, nil''','''		idx := 0 // neighbouring glyphs are often in the same range
		return func(gid glyph.ID) int {
			if gid >= end[idx] || idx > 0 && gid < end[idx-1] {
				idx = sort.Search(int(nRanges),
					func(i int) bool { return gid < end[i] })
			}
			return int(fdIdx[idx])
		}, nil''')],
 needs='two goroutines which use a CID-keyed font (read from a file with a format 3 FDSelect) at the same time',
 breaks='the FDSelect function caches the last range without synchronisation',
 test='''
package cff
import ("testing";"bytes";"sync";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/parser")
func TestZZDemo(t *testing.T){
	n:=60
	f:=FDSelectFn(func(g glyph.ID) int { return int(g)/20%2 })
	g,err:=readFDSelect(parser.New(bytes.NewReader(f.encode(n))),n,2)
	if err!=nil {t.Fatal(err)}
	var wg sync.WaitGroup
	for k:=range 4 { wg.Add(1); go func(){ defer wg.Done(); for i:=range 1000 { if g(glyph.ID((i*7+k)%n))!=f(glyph.ID((i*7+k)%n)) {t.Error("wrong");return} } }() }
	wg.Wait()
}
'''),
dict(id='c18-gasp', prop='C18', pkg='.',
 edits=[('read.go','''			data, err := dir.ReadTableBytes(rr, name)
			if err != nil {
				return nil, err
			}
			tables[name] = data''','''			data, err := dir.ReadTableBytes(rr, name)
			if err != nil {
				continue // the font is usable without hinting
			}
			tables[name] = data''')],
 needs='a read error (or a truncated file) exactly inside one of the hinting tables',
 breaks='the error is ignored and the tables are silently dropped',
 test='''
package sfnt
import ("bytes";"errors";"testing";"seehuhn.de/go/sfnt/glyf";"seehuhn.de/go/sfnt/maxp";"seehuhn.de/go/postscript/funit")
type zzR struct{*bytes.Reader; bad int64}
func (r zzR) ReadAt(p []byte, off int64)(int,error){
	if off<=r.bad && r.bad<off+int64(len(p)) {return 0,errors.New("disk error")}
	return r.Reader.ReadAt(p,off)
}
func TestZZDemo(t *testing.T){
	f:=&Font{FamilyName:"Test",UnitsPerEm:1000,Outlines:&glyf.Outlines{
		Glyphs:glyf.Glyphs{nil,nil},Widths:[]funit.Int16{500,600},
		Tables:map[string][]byte{"prep":{0xb0,1,0x21,0xb0,0xb0,0xb0,0xb0,0xb0}},
		Maxp:&maxp.TTFInfo{},
	}}
	var b bytes.Buffer
	if _,err:=f.Write(&b);err!=nil {t.Fatal(err)}
	pos:=bytes.Index(b.Bytes(),[]byte{0xb0,1,0x21,0xb0})
	if _,err:=Read(zzR{bytes.NewReader(b.Bytes()),int64(pos)});err==nil {t.Fatal("error ignored")}
}
'''),
dict(id='c20-lig-prefix', prop='C20', pkg='.',
 edits=[('names.go','''					replLoop:
						for _, lig := range subtable.Repl[idx] {
							nn = nn[:1]
''','''					replLoop:
						for _, lig := range subtable.Repl[idx] {
''')],
 needs='two ligatures with the same first glyph and unnamed results',
 breaks='the name of the second ligature contains the components of the first one',
 test='''
package sfnt
import ("testing";"seehuhn.de/go/sfnt/glyf";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/postscript/funit";"seehuhn.de/go/sfnt/opentype/gtab";"seehuhn.de/go/sfnt/opentype/coverage")
func TestZZDemo(t *testing.T){
	f:=&Font{Outlines:&glyf.Outlines{Glyphs:make(glyf.Glyphs,6),Widths:make([]funit.Int16,6),Names:[]string{".notdef","f","i","l","",""}},
	Gsub:&gtab.Info{LookupList:gtab.LookupList{{Meta:&gtab.LookupMetaInfo{LookupType:4},Subtables:[]gtab.Subtable{
		&gtab.Gsub4_1{Cov:coverage.Table{1:0},Repl:[][]gtab.Ligature{{{In:[]glyph.ID{2},Out:4},{In:[]glyph.ID{3},Out:5}}}},
	}}}}}
	if n:=f.MakeGlyphNames();n[4]!="f_i"||n[5]!="f_l" {t.Fatal(n)}
}
'''),
dict(id='c20-variant', prop='C20', pkg='.',
 edits=[('names.go','''	for used[name] {
		try++
		name = fmt.Sprintf("%s.%d", basename, try)
	}
	used[name] = true
	return name''','''	for used[name] && try < 9 {
		try++
		name = fmt.Sprintf("%s.%d", basename, try)
	}
	used[name] = true
	return name''')],
 needs='more than nine unnamed variants of one glyph',
 breaks='the tenth and later variants get the same name',
 test='''
package sfnt
import ("testing";"seehuhn.de/go/sfnt/glyf";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/postscript/funit";"seehuhn.de/go/sfnt/opentype/gtab";"seehuhn.de/go/sfnt/opentype/coverage")
func TestZZDemo(t *testing.T){
	n:=16
	names:=make([]string,n); names[0]=".notdef"; names[1]="a"
	var alt []glyph.ID
	for i:=2;i<n;i++ {alt=append(alt,glyph.ID(i))}
	f:=&Font{Outlines:&glyf.Outlines{Glyphs:make(glyf.Glyphs,n),Widths:make([]funit.Int16,n),Names:names},
	Gsub:&gtab.Info{LookupList:gtab.LookupList{{Meta:&gtab.LookupMetaInfo{LookupType:3},Subtables:[]gtab.Subtable{
		&gtab.Gsub3_1{Cov:coverage.Table{1:0},Alternates:[][]glyph.ID{alt}},
	}}}}}
	seen:=map[string]bool{}
	for _,s:=range f.MakeGlyphNames() {if seen[s] {t.Fatal(s)}; seen[s]=true}
}
'''),
dict(id='c19-lig-stable', prop='C19', pkg='opentype/gtab/builder',
 edits=[('opentype/gtab/builder/explain.go','	sort.SliceStable(mm, func(i, j int) bool {\n','	sort.Slice(mm, func(i, j int) bool {\n')],
 needs='a GSUB 4 lookup with more than 12 ligatures, several of them starting with the same glyph',
 breaks='the ligatures are listed in the wrong order, which changes the meaning of the lookup',
 test='''
package builder
import ("testing";"seehuhn.de/go/sfnt";"seehuhn.de/go/sfnt/glyf";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/postscript/funit";"seehuhn.de/go/sfnt/opentype/gtab";"seehuhn.de/go/sfnt/opentype/coverage")
func TestZZDemo(t *testing.T){
	var ll [][]gtab.Ligature
	cov:=coverage.Table{}
	for i:=range 5 {
		cov[glyph.ID(1+i)]=i
		var l []gtab.Ligature
		for k:=range 12 {l=append(l,gtab.Ligature{In:[]glyph.ID{glyph.ID(20-k)},Out:glyph.ID(30+k)})}
		ll=append(ll,l)
	}
	f:=&sfnt.Font{Outlines:&glyf.Outlines{Glyphs:make(glyf.Glyphs,60),Widths:make([]funit.Int16,60)},
	Gsub:&gtab.Info{LookupList:gtab.LookupList{{Meta:&gtab.LookupMetaInfo{LookupType:4},Subtables:[]gtab.Subtable{
		&gtab.Gsub4_1{Cov:cov,Repl:ll},
	}}}}}
	for range 30 {
	s:=ExplainGsub(f)
	lx,err:=Parse(f,s)
	if err!=nil {t.Fatal(err)}
	for _,l:=range lx[0].Subtables[0].(*gtab.Gsub4_1).Repl {
		for k,x:=range l {if x.Out!=glyph.ID(30+k) {t.Fatal(s)}}
	}
	}
}
'''),
dict(id='c12-lsb-negative', prop='C12', pkg='hmtx',
 edits=[('hmtx/hmtx.go','''		if first || lsb < hhea.MinLeftSideBearing {
			hhea.MinLeftSideBearing = lsb
			first = false
		}''','''		if first && lsb > 0 || lsb < hhea.MinLeftSideBearing {
			hhea.MinLeftSideBearing = lsb
			first = false
		}''')],
 needs='a font where a glyph with left side bearing zero precedes glyphs with positive bearings',
 breaks='hhea.minLeftSideBearing is positive although there is a glyph with bearing zero',
 test='''
package hmtx
import ("testing";"seehuhn.de/go/postscript/funit")
func TestZZDemo(t *testing.T){
	i:=&Info{Widths:[]funit.Int16{100,100},GlyphExtents:[]funit.Rect16{{LLx:0,URx:50,URy:10},{LLx:20,URx:50,URy:10}}}
	h,_:=i.Encode()
	if v:=int16(h[12])<<8|int16(h[13]);v!=0 {t.Fatal(v)}
}
'''),
dict(id='c02-f12-sum', prop='C02', pkg='cmap',
 edits=[('cmap/format12.go','''		size += endCharCode - startCharCode + 1
		if size > 65536 {''','''		size = endCharCode - startCharCode + 1
		if size > 65536 {''')],
 needs='a format 12 subtable with very many groups, each of which is large',
 breaks='the memory used is no longer bounded: a small file expands to many times 65536 entries',
 test='''
package cmap
import "testing"
func TestZZDemo(t *testing.T){
	n:=400
	l:=16+12*n
	b:=make([]byte,l)
	copy(b,[]byte{0,12,0,0,byte(l>>24),byte(l>>16),byte(l>>8),byte(l),0,0,0,0,0,0,byte(n>>8),byte(n)})
	for i:=range n {
		s:=uint32(i)*65536; e:=s+65535
		copy(b[16+12*i:],[]byte{byte(s>>24),byte(s>>16),byte(s>>8),byte(s),byte(e>>24),byte(e>>16),byte(e>>8),byte(e)})
	}
	c,err:=decodeFormat12(b,nil)
	if err==nil {t.Fatal(len(c.(Format12)))}
}
'''),
]
