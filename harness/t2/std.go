package t2

import "strings"

// stdNames are the standard strings of TN5176, appendix A, in the order of their SIDs.
var stdNames = strings.Fields(`
.notdef space exclam quotedbl numbersign dollar percent ampersand quoteright parenleft parenright
asterisk plus comma hyphen period slash zero one two three four five six seven eight nine colon
semicolon less equal greater question at A B C D E F G H I J K L M N O P Q R S T U V W X Y Z
bracketleft backslash bracketright asciicircum underscore quoteleft a b c d e f g h i j k l m n o p
q r s t u v w x y z braceleft bar braceright asciitilde exclamdown cent sterling fraction yen florin
section currency quotesingle quotedblleft guillemotleft guilsinglleft guilsinglright fi fl endash
dagger daggerdbl periodcentered paragraph bullet quotesinglbase quotedblbase quotedblright
guillemotright ellipsis perthousand questiondown grave acute circumflex tilde macron breve dotaccent
dieresis ring cedilla hungarumlaut ogonek caron emdash AE ordfeminine Lslash Oslash OE ordmasculine
ae dotlessi lslash oslash oe germandbls onesuperior logicalnot mu trademark Eth onehalf plusminus
Thorn onequarter divide brokenbar degree thorn threequarters twosuperior registered minus eth
multiply threesuperior copyright Aacute Acircumflex Adieresis Agrave Aring Atilde Ccedilla Eacute
Ecircumflex Edieresis Egrave Iacute Icircumflex Idieresis Igrave Ntilde Oacute Ocircumflex Odieresis
Ograve Otilde Scaron Uacute Ucircumflex Udieresis Ugrave Yacute Ydieresis Zcaron aacute acircumflex
adieresis agrave aring atilde ccedilla eacute ecircumflex edieresis egrave iacute icircumflex
idieresis igrave ntilde oacute ocircumflex odieresis ograve otilde scaron uacute ucircumflex
udieresis ugrave yacute ydieresis zcaron exclamsmall Hungarumlautsmall dollaroldstyle dollarsuperior
ampersandsmall Acutesmall parenleftsuperior parenrightsuperior twodotenleader onedotenleader
zerooldstyle oneoldstyle twooldstyle threeoldstyle fouroldstyle fiveoldstyle sixoldstyle
sevenoldstyle eightoldstyle nineoldstyle commasuperior threequartersemdash periodsuperior
questionsmall asuperior bsuperior centsuperior dsuperior esuperior isuperior lsuperior msuperior
nsuperior osuperior rsuperior ssuperior tsuperior ff ffi ffl parenleftinferior parenrightinferior
Circumflexsmall hyphensuperior Gravesmall Asmall Bsmall Csmall Dsmall Esmall Fsmall Gsmall Hsmall
Ismall Jsmall Ksmall Lsmall Msmall Nsmall Osmall Psmall Qsmall Rsmall Ssmall Tsmall Usmall Vsmall
Wsmall Xsmall Ysmall Zsmall colonmonetary onefitted rupiah Tildesmall exclamdownsmall centoldstyle
Lslashsmall Scaronsmall Zcaronsmall Dieresissmall Brevesmall Caronsmall Dotaccentsmall Macronsmall
figuredash hypheninferior Ogoneksmall Ringsmall Cedillasmall questiondownsmall oneeighth
threeeighths fiveeighths seveneighths onethird twothirds zerosuperior foursuperior fivesuperior
sixsuperior sevensuperior eightsuperior ninesuperior zeroinferior oneinferior twoinferior
threeinferior fourinferior fiveinferior sixinferior seveninferior eightinferior nineinferior
centinferior dollarinferior periodinferior commainferior Agravesmall Aacutesmall Acircumflexsmall
Atildesmall Adieresissmall Aringsmall AEsmall Ccedillasmall Egravesmall Eacutesmall Ecircumflexsmall
Edieresissmall Igravesmall Iacutesmall Icircumflexsmall Idieresissmall Ethsmall Ntildesmall
Ogravesmall Oacutesmall Ocircumflexsmall Otildesmall Odieresissmall OEsmall Oslashsmall Ugravesmall
Uacutesmall Ucircumflexsmall Udieresissmall Yacutesmall Thornsmall Ydieresissmall 001.000 001.001
001.002 001.003 Black Bold Book Light Medium Regular Roman Semibold
`)

// Name returns the string for a SID; ok is false if there is none.
func (p *Parsed) Name(sid int) (name string, ok bool) {
	if sid < 0 {
		return "", false
	}
	if sid < len(stdNames) {
		return stdNames[sid], true
	}
	sid -= len(stdNames)
	if sid >= len(p.Strings) {
		return "", false
	}
	return string(p.Strings[sid]), true
}

type sidRange struct{ at, first, last int }

// StandardEncoding gives the SIDs of the standard encoding, TN5176, appendix B.
func StandardEncoding() [256]int {
	return expand([]sidRange{{32, 1, 95}, {161, 96, 110}, {177, 111, 114}, {182, 115, 122}, {191, 123, 123},
		{193, 124, 131}, {202, 132, 133}, {205, 134, 137}, {225, 138, 138}, {227, 139, 139}, {232, 140, 143},
		{241, 144, 144}, {245, 145, 145}, {248, 146, 149}})
}

// ExpertEncoding gives the SIDs of the expert encoding, TN5176, appendix B.
func ExpertEncoding() [256]int {
	return expand([]sidRange{{32, 1, 1}, {33, 229, 230}, {36, 231, 238}, {44, 13, 15}, {47, 99, 99}, {48, 239, 248},
		{58, 27, 28}, {60, 249, 252}, {65, 253, 257}, {73, 258, 258}, {76, 259, 262}, {82, 263, 265}, {86, 266, 266},
		{87, 109, 110}, {89, 267, 269}, {93, 270, 303}, {161, 304, 306}, {166, 307, 311}, {172, 312, 312},
		{175, 313, 313}, {178, 314, 315}, {182, 316, 318}, {188, 158, 158}, {189, 155, 155}, {190, 163, 163},
		{191, 319, 325}, {200, 326, 326}, {201, 150, 150}, {202, 164, 164}, {203, 169, 169}, {204, 327, 378}})
}

func expand(rr []sidRange) (res [256]int) {
	for _, r := range rr {
		for s := r.first; s <= r.last; s++ {
			res[r.at+s-r.first] = s
		}
	}
	return res
}

// PredefinedCharset gives the SIDs of the ISOAdobe (0), Expert (1) and
// ExpertSubset (2) charsets, TN5176, appendix C.
func PredefinedCharset(id int) []int {
	var rr []sidRange
	switch id {
	case 0:
		rr = []sidRange{{0, 0, 228}}
	case 1:
		rr = []sidRange{{0, 0, 1}, {0, 229, 238}, {0, 13, 15}, {0, 99, 99}, {0, 239, 248}, {0, 27, 28}, {0, 249, 266},
			{0, 109, 110}, {0, 267, 318}, {0, 158, 158}, {0, 155, 155}, {0, 163, 163}, {0, 319, 326}, {0, 150, 150},
			{0, 164, 164}, {0, 169, 169}, {0, 327, 378}}
	case 2:
		rr = []sidRange{{0, 0, 1}, {0, 231, 232}, {0, 235, 238}, {0, 13, 15}, {0, 99, 99}, {0, 239, 248}, {0, 27, 28},
			{0, 249, 251}, {0, 253, 266}, {0, 109, 110}, {0, 267, 270}, {0, 272, 272}, {0, 300, 302}, {0, 305, 305},
			{0, 314, 315}, {0, 158, 158}, {0, 155, 155}, {0, 163, 163}, {0, 320, 326}, {0, 150, 150}, {0, 164, 164},
			{0, 169, 169}, {0, 327, 346}}
	}
	var res []int
	for _, r := range rr {
		for s := r.first; s <= r.last; s++ {
			res = append(res, s)
		}
	}
	return res
}

// StdName returns a standard string.
func StdName(sid int) string { return stdNames[sid] }
