package vref

// Exprs is a list of expressions that use every operator, alone and combined,
// and every size that the implementation treats specially.
var Exprs = []string{
	// literals, dots, classes
	``, `a`, `ab`, `abc`, `.`, `a.b`, `..`, `...`, `[ab]c`, `[^a]b`, `[^\n]`, `[a-c]x`, `[^a-y]`, `\d\d`, `\w`, `\W\w`, `\s`, `\S`, `\D_`, `[[:alpha:]]1`,
	`[a\-\]z]`, `\.\*`, `\x41\x{e9}`, `[^\S\s]`, `[^\x00-\x{10FFFF}]`, `a[^\D\d]|b`, `(?s)a.`, `(?s).b`, "a\\n", `[\n]a`, `\n|b`,
	// repetition
	`a*`, `a+b`, `a?b`, `ab*c`, `a*b*c`, `(ab)*c`, `(ab)+`, `(a|b)*c`, `(a*)*b`, `(a*)+`, `(a|b?)+c`, `(|a)*b`, `(|a)+`, `(a?b?)*c`,
	`a{2}`, `a{2,}b`, `a{1,2}b`, `a{0}b`, `a{0,2}b`, `(ab){2}`, `(a|b){3}`, `(a{2}|b){2}`, `(ab?){2,3}`, `a+?b`, `a*?b`, `a??b`, `(?U)a+b`, `x{130}|ab`,
	// alternation and factoring
	`a|b`, `ab|cd`, `ab|ac`, `abc|abd`, `a|bc|def`, `(a|b)(c|d)`, `a(|b)c`, `(?:ab|a)b`, `(|a|b)c`, `ab|`, `(foo|bar|ba)z`, `a|[bc]|d`,
	// anchors and boundaries
	`^`, `$`, `^$`, `^a`, `a$`, `^ab$`, `^a*$`, `a^b`, `a$b`, `(^a|b)c`, `(a|b$)`, `^(a|bc)*$`, `(^|x)a`, `a($|x)`, `^^a$$`, `(^a)*b`, `(a$)?b`, `\Aa`, `a\z`, `\Aa\z`, `\A|b`, `(\Aa|b)c`, `b|\z`, `a(\z|b)`, `^\Aa`, `\A^`, `\z$`,
	`\b`, `\B`, `\ba`, `a\b`, `\bab\b`, `a\bb`, `a\Bb`, `\Ba`, `a\B`, `\b\b`, `\b\B`, `\bx*\b`, `(\ba|b)c`, `.\b.`, `.\B.`, `a\b-`, `\b_`, `^\b`, `\b$`, `\B$`, `^\B`, `(a|\b)b`, `(\b|x)+a`, `^\Ba`, `(\B|x)-`, `-\b|\bz`, `a(\b|-)`, `\b.\b`, `\B.\B`,
	// case folding
	`(?i)a`, `(?i)ab`, `(?i)k`, `(?i)s`, `(?i)ks`, `(?i)[a-c]`, `(?i)[k]`, `(?i)[^k]x`, `(?i)[^a]`, `(?i)é`, `(?i)ß`, `(?i)σ`, `(?i)θ`, `(?i)1a`, `a(?i)b`, `(?i:a)b`, `(?i)@z`, `[Aa]b`, `A|a`, `k|K`, `k|K|K`, `é|É`, `[Kk]`, `[Ss]x`, `(?i)a|b`, `(?i)\w`, `(?i)[_-a]`, `(?i)[Z-\x{5b}]`, `(?i)ǅ`, `[ǄǅǆA]`, `(?i)µ`,
	// more than one byte
	`é`, `éa`, `[é-ü]`, `[α-ω]a`, `日`, `[日本]`, `[ぁ-ん]`, `日|月`, `é|日`, `[\x{80}-\x{7ff}]`, `[\x{800}-\x{ffff}]`, `[\x{10000}-\x{10ffff}]`, `😀`, `[😀-😃]`, `[^é]`, `[^日]`, `[^a-\x{7f}]`, `[a-é]`, `[a-日]`, `[é-😀]`, `.é`, `é.`, `é*a`, `(é|a)*b`, `\bé`, `é\b`, `a\bé`, `[\x{7e}-\x{81}]`, `[\x{7fe}-\x{801}]`, `[\x{fffe}-\x{10001}]`, `[\x{3f}-\x{c0}]`, `[\x{fff}-\x{1000}]`, `[\x{83f}-\x{840}]`, `[\x{d7ff}\x{e000}]`, `\pN`, `\p{Greek}`, `\P{Greek}`,
	// captures and groups
	`(a)(b)`, `(?P<x>a)b`, `((a)|(b))+c`, `(?:a)(?:b)?`, `()`, `()a`, `(a)|()`,
}

// LongExprs is for the analysis that chooses what to look up, which is
// sensitive to the sizes of sets of strings and to their lengths.
var LongExprs = []string{
	`abcd`, `abcdef`, `abc|def`, `abc|abd|abe`, `ab(c|d)ef`, `(abc)+`, `(abc)*`, `(abc)?d`, `abc(def)?`, `(abc|def)+`, `(abc|def)?ghi`, `abc.def`, `abc.*def`, `(ab|cd)(ef|gh)`, `a(b|c)d(e|f)g`,
	`[ab][cd][ef]`, `[abc][def]`, `[a-g]b`, `[a-h]b`, `[a-h]bc`, `x[a-g]`, `x[a-h]`, `x[a-h]y`, `xy[a-h]`, `xy[a-h]z`, `xyz[a-h]`, `[a-h]xyz`, `[a-t]xy`, `[a-u]xy`, `xy[a-u]`, `xy[a-u]z`, `[a-u][xy]z`, `[a-e][a-e]x`, `[a-e]x[a-e]`, `x[a-e][a-e]`, `[a-e][a-e]`, `[a-e][a-e][a-e]`,
	`(?i)abc`, `(?i)abcd`, `(?i)ab`, `(?i)sk`, `(?i)ask`, `(?i)skis`, `x(?i)ab`, `(?i)a.bc`, `(?i)ab*c`,
	`(a|ab)(c|bcd)`, `(a|bc|def)x`, `x(a|bc|def)`, `(a|bc|def)(gh|ijk)`, `ab?c`, `ab?cd`, `a?b?c?`, `(ab)?(cd)?(ef)?`, `(ab)?(cd)?ef`, `a?bcd`, `abc?d?`, `(abcd|)e`, `e(abcd|)`, `(abcd|)(efgh|)`, `(abcd|)(efgh|)ij`, `(abcd)?(efgh)?`, `(a|)(b|)(c|)d`,
	`a+b`, `ab+c`, `(ab)+c`, `a+b+c+`, `(a|b)+c`, `(abc|d)+`, `(ab|c)+d`, `a{3}`, `a{2,3}b`, `(ab){2,}`, `(abc){0,1}d`, `a{3}b{3}`, `(a|b){3}`, `([a-h]b)+`, `([a-h]x)+y`, `(ab?)+c`, `(a?b)+c`, `((a|b)c)+d`, `(a*b)+c`, `(ab*)+c`,
	`a*bcd`, `abc*d`, `a.*b`, `ab.*cd`, `.*abc`, `abc.*`, `.abc.`, `a.b.c`, `abc.`, `(.|a)bc`, `(a.|b)cd`, `ab(.|c)d`, `ab(c*|d)e`, `(a*|b)cd`, `ab(c|d*)`, `abc|d.f`, `abc|.*`, `abc|`, `(abc|)def`, `(|abc)def`, `x*abc|def`, `abc|x*def`, `abc.*|def`, `(abc|x).*(def|y)`,
	`yz([bcd]|a.*e)`, `yz(a.*e|[bcd])`, `([bcd]|a.*e)yz`, `([b-j]|a.*e)yz`, `(a.*e|b.*f)yz`, `(bcd|a.*e)`, `a([bcd]|e+)f`, `(a|b+)cd`, `(a+|b)cd`, `(ab+|cd)ef`, `(ab|cd+)ef`, `(xb|xc|x.*d)yz`, `(bx|cx|d.*x)yz`, `yz(xb|xc|x.*d)`, `(abc|abd|a.*e)f`, `f(abc|abd|a.*e)`,
	`abc&def`, `(abc&|abd)(def|deg)`, `(abcx|abcy)`, `(abcx|abcy|abcz)w`, `abcd|abce|xbcd`, `abcde|bcdef`, `(abcdef|abcxyz)`, `abcdef|defabc`, `(abc.def|abc.xyz)`, `(abc.def|def.abc)`, `(abc.*def|abc.*xyz|ghi)`, `(abc|def).*(abc|xyz)`, `(abc|def).*(def|abc)`, `(abc|def).*(abc|def|ghi)`, `(abc.def)|(abc.(def|ghi))`, `(abc.*def.*ghi|abc.*ghi)`, `(abc.*(def|ghi)|(def|ghi))`, `(abc|bcd|cde).(abc|xyz)`, `(abc.def|ghi).(abc.ghi|def)`, `((abc|def).(ghi|jkl)|(abc|def).(mno|pqr))`,
	`^abc`, `abc$`, `^abc$`, `ab^c`, `a\bbc`, `\babc\b`, `ab($|c)d`, `ab(^|c)d`, `ab(\b|c)d`, `(?m)^abc$`, `a()bc`, `(a)(b)(c)`, `((ab)c)d`, `(?:ab)(?:c)`, `[^a-z]bc`, `[^\x00-\x{10FFFF}]`, `abc[^\x00-\x{10FFFF}]`, `abc|[^\x00-\x{10FFFF}]`, `(abc[^\x00-\x{10FFFF}])?d`, `[^\x00-\x{10FFFF}]*abc`, `([^\x00-\x{10FFFF}]|abc)d`,
	`é`, `éa`, `aé`, `[éè]a`, `日`, `日本`, `[日本]`, `(日|本)+`, `(?i)é`, `(?i)éa`, `😀`, `a😀`, `[😀-😃]`, `[é-ü]x`, `[α-ω]`, `[日-月]`, `é.日`, `日?a`, `日+`, `(é|日)b`,
	`\dab`, `ab\d`, `\w+abc`, `\sab`, `[[:upper:]]bc`, `[0-9][0-9]a`, `0x[0-9a-f]`, `(GET|POST) /`, `if (a|b)`,
}

// A Rand is a small pseudo-random generator.
type Rand uint64

func (r *Rand) N(n int) int {
	x := uint64(*r)
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	*r = Rand(x)
	return int((x >> 11) % uint64(n))
}

// Seeded returns the generator for the i'th expression of a seed.
func Seeded(seed, i int) *Rand {
	r := Rand(uint64(seed)*0x9E3779B97F4A7C15 + uint64(i)*0xD1B54A32D192ED03 + 0x8CB92BA72F3D8DD7)
	if r == 0 {
		r = 1
	}
	for k := 0; k < 8; k++ {
		r.N(2)
	}
	return &r
}

// Gen returns a random expression of at most the given depth over leaves.
func (r *Rand) Gen(depth int, leaves []string) string {
	if depth == 0 || r.N(5) == 0 {
		return leaves[r.N(len(leaves))]
	}
	sub := func() string { return r.Gen(depth-1, leaves) }
	group := func() string { return "(?:" + sub() + ")" }
	switch r.N(10) {
	case 0, 1, 2, 3:
		return group() + group()
	case 4, 5:
		return "(?:" + sub() + "|" + sub() + ")"
	case 6:
		return "(?:" + sub() + "|" + sub() + "|" + sub() + ")"
	case 7:
		return group() + []string{"*", "+", "?"}[r.N(3)]
	case 8:
		return group() + []string{"+", "?", "{2}", "{1,2}", "{2,}"}[r.N(5)]
	default:
		return group() + group() + group()
	}
}

// Leaves are the building blocks of random expressions.
var (
	Leaves     = []string{`a`, `b`, `ab`, `.`, `[ab]`, `[^a]`, `c`, `^`, `$`, `\b`, `\B`, `(?i)k`, `é`, ``, `[a-c]`, `-`}
	LongLeaves = []string{`a`, `b`, `c`, `ab`, `bc`, `abc`, `bcd`, `abcd`, `cde`, `xyz`, `.`, `.*`, `[ab]`, `[bcd]`, `[a-h]`, `[a-u]`, `(?i)k`, `(?i)sa`, ``, `é`, `[^a]`, `^`, `\b`}
)
