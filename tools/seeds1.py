SEEDS=[
dict(id='c17-short-read', prop='C17', pkg='parser',
 edits=[('parser/parser.go','	for p.pos+n > p.used {\n','	if p.pos+n > p.used {\n'),
        ('parser/parser.go','		p.used += l\n	}\n','		p.used += l\n		if p.used < n {\n			return nil, io.ErrUnexpectedEOF\n		}\n	}\n')],
 needs='an underlying reader which returns fewer bytes than requested (legal for io.Reader)',
 breaks='ReadBytes refills the buffer only once, so reads fail although the data is there',
 test='''
package parser
import ("bytes";"testing";"io")
type slow struct{*bytes.Reader}
func (s slow) Read(b []byte)(int,error){ if len(b)>3 {b=b[:3]}; return s.Reader.Read(b)}
var _ io.Reader=slow{}
func TestZZDemo(t *testing.T){
	p:=New(slow{bytes.NewReader([]byte{1,2,3,4,5,6,7,8})})
	v,err:=p.ReadUint32()
	if err!=nil||v!=0x01020304 {t.Fatal(v,err)}
	v,err=p.ReadUint32()
	if err!=nil||v!=0x05060708 {t.Fatal(v,err)}
}
'''),
dict(id='c17-slice-chunk', prop='C17', pkg='parser',
 edits=[('parser/parser.go','''	for i := range res {
		val, err := p.ReadUint16()
		if err != nil {
			return nil, err
		}
		res[i] = val
	}
	return res, nil''','''	todo := res
	for len(todo) > 0 {
		k := min(len(todo), bufferSize/2)
		buf, err := p.ReadBytes(2 * k)
		if err != nil {
			return nil, err
		}
		for i := range k {
			todo[i] = uint16(buf[2*i])<<8 | uint16(buf[2*i+1])
		}
		if k < bufferSize/2 {
			break
		}
		todo = todo[k-1:]
	}
	return res, nil''')],
 needs='a uint16 slice of at least 512 entries',
 breaks='the bulk read of long uint16 slices goes wrong at the chunk boundary',
 test='''
package parser
import ("bytes";"testing")
func TestZZDemo(t *testing.T){
	n:=700
	b:=[]byte{byte(n>>8),byte(n&255)}
	for i:=0;i<n;i++ {b=append(b,byte(i>>8),byte(i))}
	b=append(b,0,0)
	p:=New(bytes.NewReader(b))
	v,err:=p.ReadUint16Slice()
	if err!=nil||len(v)!=n {t.Fatal(err)}
	for i,x:=range v {if int(x)!=i {t.Fatal(i,x)}}
}
'''),
dict(id='c17-seek-boundary', prop='C17', pkg='parser',
 edits=[('parser/parser.go','''		_, err := p.r.Seek(filePos, io.SeekStart)
		if err != nil {
			return err
		}
		p.from = filePos
		p.pos = 0
		p.used = 0
''','''		base := filePos &^ 3
		if p.from < base && base < p.from+int64(p.used) {
			base = filePos
		}
		_, err := p.r.Seek(base, io.SeekStart)
		if err != nil {
			return err
		}
		p.from = base
		p.pos = int(filePos - base)
		p.used = p.pos
''')],
 needs='a seek outside the buffered window to an offset which is not a multiple of four',
 breaks='unaligned seeks return bytes from the wrong position',
 test='''
package parser
import ("bytes";"testing")
func TestZZDemo(t *testing.T){
	b:=make([]byte,5000)
	for i:=range b {b[i]=byte(i*7)}
	p:=New(bytes.NewReader(b))
	if _,err:=p.ReadUint32();err!=nil {t.Fatal(err)}
	if err:=p.SeekPos(3001);err!=nil {t.Fatal(err)}
	v,err:=p.ReadUint8()
	if err!=nil||v!=b[3001] {t.Fatal(v,b[3001],err)}
}
'''),
dict(id='c03-entry-selector', prop='C03', pkg='header',
 edits=[('header/write.go','entrySelector := bits.Len(uint(numTables)) - 1','entrySelector := max(bits.Len(uint(numTables-1))-1, 0)')],
 needs='a number of tables which is a power of two greater than one',
 breaks='binary search fields of the table directory are wrong',
 test='''
package header
import ("bytes";"testing")
func TestZZDemo(t *testing.T){
	var b bytes.Buffer
	_,err:=Write(&b,0x00010000,map[string][]byte{"aaaa":{1},"bbbb":{2},"cccc":{3},"dddd":{4}})
	if err!=nil {t.Fatal(err)}
	d:=b.Bytes()
	if d[6]!=0||d[7]!=64||d[9]!=2||d[11]!=0 {t.Fatalf("% x",d[:12])}
}
'''),
dict(id='c03-head-checksum', prop='C03', pkg='header',
 edits=[('header/write.go','''	if headData := tables["head"]; len(headData) >= 12 {
		clearChecksum(headData)
	}
''','''	if headData := tables["head"]; len(headData) > 54 {
		clearChecksum(headData)
	}
''')],
 needs='a head table which already contains a checksum adjustment (copied from another font)',
 breaks='head checksum and checkSumAdjustment are wrong',
 test='''
package header
import ("bytes";"testing")
func TestZZDemo(t *testing.T){
	h:=make([]byte,54)
	h[8],h[9],h[10],h[11]=1,2,3,4
	var b bytes.Buffer
	_,err:=Write(&b,0x00010000,map[string][]byte{"head":h})
	if err!=nil {t.Fatal(err)}
	if s:=checksum(b.Bytes()); s!=0xB1B0AFBA {t.Fatalf("%08x",s)}
}
'''),
dict(id='c03-padding', prop='C03', pkg='header',
 edits=[('header/write.go','''			l, err := w.Write(pad[:4-k])
			totalSize += int64(l)
			if err != nil {
				return totalSize, err
			}
''','''			l, err := w.Write(body[n-k:][:min(k, 4-k)])
			if err == nil {
				var l2 int
				l2, err = w.Write(pad[:4-k-l])
				l += l2
			}
			totalSize += int64(l)
			if err != nil {
				return totalSize, err
			}
''')],
 needs='a table with a length which is not a multiple of four',
 breaks='padding bytes are not zero, so that directory checksums do not match the padded table',
 test='''
package header
import ("bytes";"testing")
func TestZZDemo(t *testing.T){
	var b bytes.Buffer
	_,err:=Write(&b,0x00010000,map[string][]byte{"aaaa":{1,2,3,4,5}})
	if err!=nil {t.Fatal(err)}
	if !bytes.Equal(b.Bytes()[28:],[]byte{1,2,3,4,5,0,0,0}) {t.Fatal(b.Bytes()[28:])}
}
'''),
dict(id='c11-loca-threshold', prop='C11', pkg='glyf',
 edits=[('glyf/loca.go','if offs[len(offs)-1] <= 0xffff {','if offs[len(offs)-1] <= 0x20000 {')],
 needs='glyph data of exactly 131072 bytes',
 breaks='the last short loca offset overflows to 0',
 test='''
package glyf
import "testing"
func TestZZDemo(t *testing.T){
	d,f:=encodeLoca([]int{0,100,0x20000})
	o,err:=decodeLoca(&Encoded{GlyfData:make([]byte,0x20000),LocaData:d,LocaFormat:f})
	if err!=nil||o[2]!=0x20000 {t.Fatal(o,err)}
}
'''),
dict(id='c11-flag-repeat', prop='C11', pkg='glyf',
 edits=[('glyf/simple.go','''			count := buf[0]
			buf = buf[1:]
			for count > 0 && i < numPoints {
				ff[i] = flags
				i++
				count--
			}
''','''			end := uint8(i) + buf[0]
			buf = buf[1:]
			for uint8(i) != end && i < numPoints {
				ff[i] = flags & (flagOnCurve | flagXShortVec | flagYShortVec | flagXSameOrPos | flagYSameOrPos)
				i++
			}
			if numPoints > 255 && i < numPoints && end == 255 {
				ff[i] = flags
				i++
			}
''')],
 needs='a simple glyph with more than 255 points, where a flag run ends at point 255',
 breaks='flag repetition counts are off by one at the 255 boundary',
 test='''
package glyf
import "testing"
func TestZZDemo(t *testing.T){
	n:=300
	enc:=[]byte{byte((n-1)>>8),byte((n-1)&255),0,0}
	// 255 points with x short positive, then 45 points "same"
	enc=append(enc,0x01|0x02|0x10|0x20|0x08,254)
	enc=append(enc,0x01|0x10|0x20|0x08,44)
	for i:=0;i<255;i++ {enc=append(enc,1)}
	g:=SimpleGlyph{NumContours:1,Encoded:enc}
	info,err:=g.Decode()
	if err!=nil {t.Fatal(err)}
	if info.Contours[0][299].X!=255 {t.Fatal(info.Contours[0][299])}
}
'''),
dict(id='c12-tail-widths', prop='C12', pkg='hmtx',
 edits=[('hmtx/hmtx.go','for numLong > 1 && info.Widths[numLong-1] == info.Widths[numLong-2] {','for numLong > 1 && info.Widths[numLong-1] == info.Widths[numGlyphs-1] && info.Widths[numLong-2]&^1 == info.Widths[numLong-1]&^1 {')],
 needs='trailing widths which differ only in the lowest bit',
 breaks='advance widths of trailing glyphs change',
 test='''
package hmtx
import ("testing";"seehuhn.de/go/postscript/funit")
func TestZZDemo(t *testing.T){
	i:=&Info{Widths:[]funit.Int16{100,500,501},LSB:[]funit.Int16{1,2,3}}
	a,b:=i.Encode()
	j,err:=Decode(a,b)
	if err!=nil {t.Fatal(err)}
	for k:=range i.Widths {if i.Widths[k]!=j.Widths[k] {t.Fatal(j.Widths)}}
}
'''),
dict(id='c12-rsb', prop='C12', pkg='hmtx',
 edits=[('hmtx/hmtx.go','''			rsb := info.Widths[i] - (lsbs[i] + ext.URx - ext.LLx)
			if first || rsb < hhea.MinRightSideBearing {
				hhea.MinRightSideBearing = rsb
			}
			first = false''','''			rsb := info.Widths[i] - (lsbs[i] + ext.URx - ext.LLx)
			if i == 0 || rsb < hhea.MinRightSideBearing {
				hhea.MinRightSideBearing = rsb
			}
			first = false''')],
 needs='an empty first glyph, and only positive right side bearings',
 breaks='minRightSideBearing in hhea is 0 instead of the true minimum',
 test='''
package hmtx
import ("testing";"seehuhn.de/go/postscript/funit")
func TestZZDemo(t *testing.T){
	i:=&Info{Widths:[]funit.Int16{100,500},GlyphExtents:[]funit.Rect16{{},{LLx:10,LLy:0,URx:400,URy:100}}}
	a,_:=i.Encode()
	if a[14]!=0||a[15]!=100 {t.Fatal(a[14:16])}
}
'''),
dict(id='c09-f4-notdef-tail', prop='C09', pkg='cmap',
 edits=[('cmap/format4.go','numDelta = 1 + numNotdef\n','numDelta = 2 + numNotdef\n')],
 needs='a glyph-array segment followed by a constant-delta run of exactly four characters',
 breaks='the encoder drops a character between two segments',
 test='''
package cmap
import ("testing";"seehuhn.de/go/sfnt/glyph")
func TestZZDemo(t *testing.T){
	for s:=uint32(1);s<4000;s++ {
		x:=s
		m:=Format4{}
		c:=uint16(65)
		for c<100 {
			x=x*1103515245+12345
			k:=int(x>>16)%7
			g:=glyph.ID(x>>20)%50+1
			if k==6 {g=0;k=3}
			for ;k>0;k-- {
				if g!=0 {m[c]=g;g++}
				c++
			}
		}
		d:=m.Encode(0)
		r,err:=decodeFormat4(d,func(c int)rune{return rune(c)})
		if err!=nil {t.Fatal(err)}
		for c:=rune(60);c<120;c++ {
			if r.Lookup(c)!=m.Lookup(c) {t.Fatal(s,c,r.Lookup(c),m.Lookup(c))}
		}
	}
}
'''),
dict(id='c09-f4-delta', prop='C09', pkg='cmap',
 edits=[('cmap/format4.go','''				if c != 0 {
					c += glyph.ID(idDelta[k])
				}
''','''				if c > 0 && int(c)+int(idDelta[k]) > 0xFFFF {
					c = glyph.ID(int(c) + int(idDelta[k]) - 0xFFFF)
				} else if c != 0 {
					c += glyph.ID(idDelta[k])
				}
''')],
 needs='a format 4 subtable which combines idRangeOffset with a negative idDelta',
 breaks='glyph ids are off by one for those segments',
 test='''
package cmap
import "testing"
func TestZZDemo(t *testing.T){
	d:=[]byte{0,4, 0,34, 0,0, 0,4, 0,4, 0,1, 0,0,
		0,65,255,255, 0,0, 0,65,255,255, 255,255,0,1, 0,4,0,0, 0,10}
	r,err:=decodeFormat4(d,func(c int)rune{return rune(c)})
	if err!=nil {t.Fatal(err)}
	if r.Lookup(65)!=9 {t.Fatal(r.Lookup(65))}
}
'''),
dict(id='c08-coverage-start', prop='C08', pkg='opentype/coverage',
 edits=[('opentype/coverage/coverage.go','''	prev := 0xFFFF
	for _, gid := range rev {
		if int(gid) != prev+1 {''','''	prev := 0xFFFF
	for _, gid := range rev {
		if gid != glyph.ID(prev)+1 {''')],
 needs='a coverage table which starts with glyph 0 and is encoded in format 2',
 breaks='the length and range count of the encoded table do not match its content',
 test='''
package coverage
import ("bytes";"testing";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/parser")
func TestZZDemo(t *testing.T){
	tab:=Table{}
	for i:=0;i<20;i++ {tab[glyph.ID(i)]=i}
	d:=tab.Encode()
	if len(d)!=tab.EncodeLen() {t.Fatal(len(d),tab.EncodeLen())}
	r,err:=Read(parser.New(bytes.NewReader(d)),0)
	if err!=nil||len(r)!=20 {t.Fatal(err,len(r))}
}
'''),
dict(id='c08-classdef-gap', prop='C08', pkg='opentype/classdef',
 edits=[('opentype/classdef/classdef.go','''				byte((i-1)>>8), byte(i-1),
				byte(segClass>>8), byte(segClass))
			segStart = -1''','''				byte(i>>8), byte(i-1),
				byte(segClass>>8), byte(segClass))
			segStart = -1''')],
 needs='a format 2 class range which ends at a glyph id with low byte 0xff',
 breaks='the end glyph of the range is encoded as 256 too large',
 test='''
package classdef
import ("bytes";"testing";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/parser")
func TestZZDemo(t *testing.T){
	tab:=Table{}
	for i:=0xF0;i<=0xFF;i++ {tab[glyph.ID(i)]=1}
	for i:=0x300;i<=0x400;i++ {tab[glyph.ID(i)]=2}
	d:=tab.Append(nil)
	r,err:=Read(parser.New(bytes.NewReader(d)),0)
	if err!=nil {t.Fatal(err)}
	if len(r)!=len(tab) {t.Fatal(len(r),len(tab))}
}
'''),
]
