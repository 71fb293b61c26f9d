C04H='''
package cff
import ("testing";"math")
func rt(t *testing.T, g *Glyph) *Glyph {
	code,err:=g.encodeCharString(500,600)
	if err!=nil {t.Fatal(err)}
	h,err:=(&decodeInfo{defaultWidth:500,nominalWidth:600}).decodeCharString(code)
	if err!=nil {t.Fatal(err)}
	if len(h.Cmds)!=len(g.Cmds)||len(h.HStem)!=len(g.HStem)||len(h.VStem)!=len(g.VStem)||h.Width!=g.Width {t.Fatal("structure differs",len(h.HStem),len(h.VStem),h.Width)}
	for i,c:=range g.Cmds { if c.Op!=h.Cmds[i].Op {t.Fatal("op")}; for j,a:=range c.Args { if math.Abs(a-h.Cmds[i].Args[j])>0.6/65536 {t.Fatal("cmd",i,j,a,h.Cmds[i].Args[j])}}}
	for i,a:=range g.HStem { if h.HStem[i]!=a {t.Fatal("hstem")}}
	for i,a:=range g.VStem { if h.VStem[i]!=a {t.Fatal("vstem")}}
	return h
}
'''
SEEDS=[
dict(id='c04-stem-chunk', prop='C04', pkg='cff',
 edits=[('cff/t2encode.go','k := (maxStack - extra) / 2','k := (maxStack - extra + 1) / 2')],
 needs='a glyph with 24 or more horizontal stems whose width is not the default width',
 breaks='the width operand is not counted against the operand stack limit',
 test=C04H+'''
func TestZZDemo(t *testing.T){
	g:=&Glyph{Width:433}
	for i:=0;i<24;i++ { g.HStem=append(g.HStem,float64(20*i),float64(20*i+10)) }
	g.Cmds=append(g.Cmds,GlyphOp{Op:OpMoveTo,Args:[]float64{1,2}},GlyphOp{Op:OpLineTo,Args:[]float64{10,20}})
	rt(t,g)
}
'''),
dict(id='c04-omit-vstem', prop='C04', pkg='cff',
 edits=[('cff/t2encode.go','''				len(stems) == 0 &&
				len(g.Cmds) > 0 &&
''','''				len(g.Cmds) > 0 &&
''')],
 needs='more than 24 vertical stems followed directly by a mask',
 breaks='the vstemhm operator is left out between two chunks of stems',
 test=C04H+'''
func TestZZDemo(t *testing.T){
	g:=&Glyph{Width:500}
	for i:=0;i<30;i++ { g.VStem=append(g.VStem,float64(20*i),float64(20*i+10)) }
	for i:=0;i<2;i++ {}
	g.HStem=[]float64{0,10}
	g.Cmds=append(g.Cmds,GlyphOp{Op:OpHintMask,Args:[]float64{255,1,2,3}},GlyphOp{Op:OpMoveTo,Args:[]float64{1,2}},GlyphOp{Op:OpLineTo,Args:[]float64{10,20}})
	code,err:=g.encodeCharString(500,600)
	if err!=nil {t.Fatal(err)}
	h,err:=(&decodeInfo{defaultWidth:500,nominalWidth:600}).decodeCharString(code)
	if err!=nil {t.Fatal(err)}
	if len(h.VStem)!=60 {t.Fatal("stems lost",len(h.VStem))}
}
'''),
dict(id='c04-hflex', prop='C04', pkg='cff',
 edits=[('cff/t2encode.go','''				dy == 0 {
''','''				math.Round(dy) == 0 {
''')],
 needs='two flex-like curves with fractional coordinates which nearly return to the start height',
 breaks='hflex is used although the end point is not on the line of the start point',
 test=C04H+'''
func TestZZDemo(t *testing.T){
	g:=&Glyph{Width:500}
	g.Cmds=append(g.Cmds,GlyphOp{Op:OpMoveTo,Args:[]float64{1,2}},
	GlyphOp{Op:OpCurveTo,Args:[]float64{11,2,21,12,31,12}},
	GlyphOp{Op:OpCurveTo,Args:[]float64{41,12,51,2.25,61,2.25}})
	rt(t,g)
}
'''),
dict(id='c04-drift', prop='C04', pkg='cff',
 edits=[('cff/t2encode.go','''			posX += dax.Val + dbx.Val + dcx.Val
''','''			posX = cmd.Args[4]
''')],
 needs='several consecutive curves with coordinates which are not multiples of 2^-16',
 breaks='rounding errors accumulate along the path',
 test=C04H+'''
func TestZZDemo(t *testing.T){
	g:=&Glyph{Width:500}
	g.Cmds=append(g.Cmds,GlyphOp{Op:OpMoveTo,Args:[]float64{1,2}})
	d:=100.3/65536
	x:=1.0
	for i:=0;i<10;i++ {
		g.Cmds=append(g.Cmds,GlyphOp{Op:OpCurveTo,Args:[]float64{x+d,3,x+2*d,5,x+3*d,float64(7+i)}})
		x+=3*d
	}
	rt(t,g)
}
'''),
dict(id='c04-rcurveline-stack', prop='C04', pkg='cff',
 edits=[('cff/t2encode.go','''cmds[pos].Op == OpLineTo && len(code)+2 <= maxStack {
			edges''','''cmds[pos].Op == OpLineTo && len(code) <= maxStack {
			edges''')],
 needs='exactly eight oblique curves followed by a line',
 breaks='rcurveline is emitted with 50 operands',
 test=C04H+'''
func TestZZDemo(t *testing.T){
	g:=&Glyph{Width:500}
	g.Cmds=append(g.Cmds,GlyphOp{Op:OpMoveTo,Args:[]float64{1,2}})
	x:=1.0
	for i:=0;i<8;i++ {
		g.Cmds=append(g.Cmds,GlyphOp{Op:OpCurveTo,Args:[]float64{x+1,x+2,x+4,x+7,x+10,x+20}})
		x+=40
	}
	g.Cmds=append(g.Cmds,GlyphOp{Op:OpLineTo,Args:[]float64{7,8}})
	rt(t,g)
}
'''),
dict(id='c05-mask-bytes', prop='C05', pkg='cff',
 edits=[('cff/t2decode.go','k := (nStems + 7) / 8','k := nStems/8 + 1')],
 needs='a mask in a glyph where the number of stems is a multiple of 8',
 breaks='one byte too many is taken as mask data',
 test='''
package cff
import "testing"
func TestZZDemo(t *testing.T){
	var code []byte
	for i:=0;i<8;i++ { code=append(code,139+10) }
	code=append(code,18)
	for i:=0;i<8;i++ { code=append(code,139+10) }
	code=append(code,19,0xff,139+1,139+2,21,139+5,6,14)
	g,err:=(&decodeInfo{defaultWidth:500,nominalWidth:600}).decodeCharString(code)
	if err!=nil {t.Fatal(err)}
	if len(g.Cmds)!=3 || len(g.Cmds[0].Args)!=1 {t.Fatal(g.Cmds)}
}
'''),
dict(id='c05-flex1-tie', prop='C05', pkg='cff',
 edits=[('cff/t2decode.go','if math.Abs(dx) > math.Abs(dy) {','if math.Abs(dx) >= math.Abs(dy) {')],
 needs='flex1 with |dx| = |dy|',
 breaks='the last operand of flex1 is taken as horizontal in the tie case',
 test='''
package cff
import "testing"
func TestZZDemo(t *testing.T){
	code:=[]byte{139,139,21, 149,149,149,149,149,149,149,149,149,149,139+7,12,37,14}
	g,err:=(&decodeInfo{defaultWidth:500,nominalWidth:600}).decodeCharString(code)
	if err!=nil {t.Fatal(err)}
	c:=g.Cmds[2].Args
	if c[4]!=0||c[5]!=57 {t.Fatal(c)}
}
'''),
dict(id='c05-ifelse', prop='C05', pkg='cff',
 edits=[('cff/t2decode.go','if stack[k+2] <= stack[k+3] {','if stack[k+2] < stack[k+3] {')],
 needs='ifelse with equal comparison operands',
 breaks='ifelse selects the wrong value for v1 = v2',
 test='''
package cff
import "testing"
func TestZZDemo(t *testing.T){
	code:=[]byte{140,141,150,150,12,22,22,14}
	g,err:=(&decodeInfo{defaultWidth:500,nominalWidth:600}).decodeCharString(code)
	if err!=nil {t.Fatal(err)}
	if g.Cmds[0].Args[0]!=1 {t.Fatal(g.Cmds)}
}
'''),
dict(id='c05-bias', prop='C05', pkg='cff',
 edits=[('cff/t2decode.go','if nSubrs < 1240 {','if nSubrs <= 1240 {')],
 needs='exactly 1240 subroutines',
 breaks='the wrong subroutine bias is used',
 test='''
package cff
import "testing"
func TestZZDemo(t *testing.T){
	subrs:=make(cffIndex,1240)
	for i:=range subrs { subrs[i]=[]byte{11} }
	subrs[1131]=[]byte{139+5,22,11}
	code:=[]byte{139,29,14}
	g,err:=(&decodeInfo{defaultWidth:500,nominalWidth:600,gsubr:subrs}).decodeCharString(code)
	if err!=nil {t.Fatal(err)}
	if len(g.Cmds)!=1 {t.Fatal(g.Cmds)}
}
'''),
dict(id='c05-roll', prop='C05', pkg='cff',
 edits=[('cff/t2decode.go','	j = j % n\n	if j < 0 {\n		j += n\n	}','	if j < 0 {\n		j += n\n	}\n	j = j % n\n	if j < 0 {\n		j = -j\n	}')],
 needs='a roll by a negative amount smaller than -n',
 breaks='roll rotates in the wrong direction',
 test='''
package cff
import "testing"
func TestZZDemo(t *testing.T){
	d:=[]float64{1,2,3}
	roll(d,-4)
	if d[0]!=2||d[1]!=3||d[2]!=1 {t.Fatal(d)}
}
'''),
dict(id='c05-private-subr', prop='C05', pkg='cff',
 edits=[('cff/t2decode.go','				copy(stack, stack[1:])\n','				copy(stack, stack[1:])\n')],
 needs='x', breaks='x', test='package cff\n'),
]
SEEDS.pop()
