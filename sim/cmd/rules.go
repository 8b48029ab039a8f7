package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/plurals"
	rt "github.com/leonelquinteros/gotext/vsimrt"
)

// Plural rules: concurrent compilations against an evaluator of C expressions.

// cnode is a node of a C expression over n.
type cnode struct {
	op   string // "n", "int", "()", "?:", or an operator
	val  uint64
	k    []*cnode
	text string
}

type cparser struct {
	s  string
	at int
}

type cbad string

func (p *cparser) fail(why string) { panic(cbad(why)) }

func (p *cparser) space() {
	for p.at < len(p.s) && strings.IndexByte(" \t\n\v\f\r", p.s[p.at]) >= 0 {
		p.at++
	}
}

// op takes one of the operators, longest first.
func (p *cparser) op(ops ...string) string {
	p.space()
	for _, o := range ops {
		if strings.HasPrefix(p.s[p.at:], o) {
			rest := p.s[p.at+len(o):]
			switch {
			case o == "!" && strings.HasPrefix(rest, "="), (o == "<" || o == ">") && (strings.HasPrefix(rest, "=") || strings.HasPrefix(rest, o)):
				continue
			}
			p.at += len(o)
			return o
		}
	}
	return ""
}

func (p *cparser) ternary() *cnode {
	c := p.binary(0)
	if p.op("?") == "" {
		return c
	}
	a := p.ternary()
	if p.op(":") == "" {
		p.fail("':' expected")
	}
	return &cnode{op: "?:", k: []*cnode{c, a, p.ternary()}}
}

var cprec = [][]string{{"||"}, {"&&"}, {"==", "!="}, {"<=", ">=", "<", ">"}, {"+", "-"}, {"*", "/", "%"}}

func (p *cparser) binary(l int) *cnode {
	if l == len(cprec) {
		return p.unary()
	}
	x := p.binary(l + 1)
	for {
		o := p.op(cprec[l]...)
		if o == "" {
			return x
		}
		x = &cnode{op: o, k: []*cnode{x, p.binary(l + 1)}}
	}
}

func (p *cparser) unary() *cnode {
	if p.op("!") != "" {
		return &cnode{op: "!", k: []*cnode{p.unary()}}
	}
	if p.op("(") != "" {
		x := p.ternary()
		if p.op(")") == "" {
			p.fail("')' expected")
		}
		return &cnode{op: "()", k: []*cnode{x}}
	}
	p.space()
	i := p.at
	for i < len(p.s) && (p.s[i] >= '0' && p.s[i] <= '9' || p.s[i] >= 'a' && p.s[i] <= 'z' || p.s[i] >= 'A' && p.s[i] <= 'Z' || p.s[i] == '_') {
		i++
	}
	w := p.s[p.at:i]
	p.at = i
	if w == "n" {
		return &cnode{op: "n"}
	}
	v, err := strconv.ParseUint(w, 10, 64)
	if err != nil {
		p.fail("operand expected")
	}
	return &cnode{op: "int", val: v, text: w}
}

func parseC(s string) (c *cnode, err error) {
	defer func() {
		if x := recover(); x != nil {
			b, ok := x.(cbad)
			if !ok {
				panic(x)
			}
			c, err = nil, fmt.Errorf("%s", string(b))
		}
	}()
	p := &cparser{s: s}
	c = p.ternary()
	p.space()
	if p.at != len(s) {
		return nil, fmt.Errorf("garbage after the expression: %q", s[p.at:])
	}
	return c, nil
}

var errDiv = fmt.Errorf("division by zero")

func (c *cnode) eval(n uint64) (v uint64, err error) {
	var k [3]uint64
	lazy := c.op == "?:" || c.op == "&&" || c.op == "||"
	for i := range c.k {
		if lazy && i > 0 {
			break
		}
		if k[i], err = c.k[i].eval(n); err != nil {
			return 0, err
		}
	}
	b := func(x bool) (uint64, error) {
		if x {
			return 1, nil
		}
		return 0, nil
	}
	switch c.op {
	case "n":
		return n, nil
	case "int":
		return c.val, nil
	case "()":
		return k[0], nil
	case "!":
		return b(k[0] == 0)
	case "?:":
		if k[0] != 0 {
			return c.k[1].eval(n)
		}
		return c.k[2].eval(n)
	case "||", "&&":
		if (c.op == "||") == (k[0] != 0) {
			return b(k[0] != 0)
		}
		v, err = c.k[1].eval(n)
		if err != nil {
			return 0, err
		}
		return b(v != 0)
	case "==":
		return b(k[0] == k[1])
	case "!=":
		return b(k[0] != k[1])
	case "<":
		return b(k[0] < k[1])
	case ">":
		return b(k[0] > k[1])
	case "<=":
		return b(k[0] <= k[1])
	case ">=":
		return b(k[0] >= k[1])
	case "+":
		return k[0] + k[1], nil
	case "-":
		return k[0] - k[1], nil
	case "*":
		return k[0] * k[1], nil
	}
	if k[1] == 0 {
		return 0, errDiv
	}
	if c.op == "/" {
		return k[0] / k[1], nil
	}
	return k[0] % k[1], nil
}

func (c *cnode) strip() *cnode {
	for c.op == "()" {
		c = c.k[0]
	}
	return c
}

func (c *cnode) isBool() bool {
	switch c = c.strip(); c.op {
	case "==", "!=", "<", ">", "<=", ">=", "||", "&&", "!":
		return true
	}
	return false
}

// loose tells whether an operand that is not a comparison is used as a
// condition or as the result somewhere in c: there the package has rules of
// its own (n%10 alone stands for "a multiple of 10").
func (c *cnode) loose(cond bool) bool {
	c = c.strip()
	switch c.op {
	case "?:":
		return c.k[0].loose(true) || c.k[1].loose(false) || c.k[2].loose(false)
	case "||", "&&":
		return c.k[0].loose(true) || c.k[1].loose(true)
	case "!":
		return c.k[0].loose(true)
	}
	if c.isBool() {
		return false
	}
	return cond || c.op != "int"
}

// octal tells whether c has a constant that C reads in another base.
func (c *cnode) octal() bool {
	if c.op == "int" && len(c.text) > 1 && c.text[0] == '0' {
		return true
	}
	for _, k := range c.k {
		if k.octal() {
			return true
		}
	}
	return false
}

func (c *cnode) size() int {
	n := 1
	for _, k := range c.k {
		n += k.size()
	}
	return n
}

func (c *cnode) intBelow(max uint64) bool { return c.op == "int" && c.val <= max }

// plain tells whether c has the form rules have in practice: a chain of
// conditionals over comparisons of n or n%m with integers, combined with ||,
// && and parentheses. Those have to compile.
func (c *cnode) plain() bool {
	if c.op == "int" && c.val == 0 && c.text == "0" {
		return true
	}
	return c.strip().op == "?:" && c.plainExpr() || c.plainTest()
}

func (c *cnode) plainExpr() bool {
	switch c.op {
	case "int":
		return c.val <= 1<<31-1
	case "()":
		return c.k[0].plainExpr()
	case "?:":
		return c.k[0].plainTest() && (c.k[1].op == "int" || c.k[1].op == "()") && c.k[1].plainExpr() && c.k[2].plainExpr()
	}
	return false
}

func (c *cnode) plainTest() bool {
	const max = 1<<32 - 1
	operand := func(c *cnode) bool {
		return c.op == "n" || c.op == "%" && c.k[0].op == "n" && c.k[1].intBelow(max) && c.k[1].val > 0
	}
	switch c.op {
	case "()":
		return c.k[0].plainTest()
	case "||", "&&":
		return c.k[0].plainTest() && c.k[1].plainTest()
	case "==", "!=", "<", ">", "<=", ">=":
		return operand(c.k[0]) && c.k[1].intBelow(max) || operand(c.k[1]) && c.k[0].intBelow(max)
	}
	return false
}

func (c *cnode) consts(l []uint64) []uint64 {
	if c.op == "int" {
		l = append(l, c.val)
	}
	for _, k := range c.k {
		l = k.consts(l)
	}
	return l
}

// realRules are rules that catalogues use.
var realRules = []string{
	"0", "n != 1", "(n != 1)", "n!=1", "n>1", "(n > 1)", "n > 1", "n==1 ? 0 : 1", "(n==1)?0:1", "(n==1 ? 0 : 1)",
	"n==1 ? 0 : n==2 ? 1 : 2",
	"n==1 ? 0 : n==0 || ( n%100>1 && n%100<11) ? 1 : (n%100>10 && n%100<20 ) ? 2 : 3",
	"(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2)",
	"n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : 2",
	"n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2",
	"n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2",
	"(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2",
	"(n == 1 ? 0 : n % 10 >= 2 && n % 10 <= 4 && (n % 100 < 12 || n % 100 > 14) ? 1 : 2)",
	"n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3",
	"(n%100==1 ? 1 : n%100==2 ? 2 : n%100==3 || n%100==4 ? 3 : 0)",
	"n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5",
	"(n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 && n%100<=99 ? 4 : 5)",
	"n==1 ? 0 : n==2 ? 1 : (n>2 && n<7) ? 2 :(n>6 && n<11) ? 3 : 4",
	"(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3",
	"(n==1) ? 0 : (n==2) ? 1 : (n == 3) ? 2 : 3",
	"(n==1) ? 0 : (n==2) ? 1 : (n != 8 && n != 11) ? 2 : 3",
	"(n % 10 == 0 || n % 100 >= 11 && n % 100 <= 19) ? 0 : ((n % 10 == 1 && n % 100 != 11) ? 1 : 2)",
	"(n % 10 == 1) ? 0 : ((n % 10 == 2) ? 1 : ((n % 100 == 0 || n % 100 == 20 || n % 100 == 40 || n % 100 == 60 || n % 100 == 80) ? 2 : 3))",
	"(n % 10 == 1 && n % 100 != 11 && n % 100 != 71 && n % 100 != 91) ? 0 : ((n % 10 == 2 && n % 100 != 12 && n % 100 != 72 && n % 100 != 92) ? 1 : ((((n % 10 == 3 || n % 10 == 4) || n % 10 == 9) && (n % 100 < 10 || n % 100 > 19) && (n % 100 < 70 || n % 100 > 79) && (n % 100 < 90 || n % 100 > 99)) ? 2 : ((n != 0 && n % 1000000 == 0) ? 3 : 4)))",
	"(n == 0) ? 0 : ((n == 1) ? 1 : (((n % 100 == 2 || n % 100 == 22 || n % 100 == 42 || n % 100 == 62 || n % 100 == 82) || n % 1000 == 0 && (n % 100000 >= 1000 && n % 100000 <= 20000 || n % 100000 == 40000 || n % 100000 == 60000 || n % 100000 == 80000) || n != 0 && n % 1000000 == 100000) ? 2 : ((n % 100 == 3 || n % 100 == 23 || n % 100 == 43 || n % 100 == 63 || n % 100 == 83) ? 3 : ((n != 1 && (n % 100 == 1 || n % 100 == 21 || n % 100 == 41 || n % 100 == 61 || n % 100 == 81)) ? 4 : 5))))",
	"(n == 1) ? 0 : ((n != 0 && n % 1000000 == 0) ? 1 : 2)",
	"(n == 0 || n == 1) ? 0 : ((n != 0 && n % 1000000 == 0) ? 1 : 2)",
	"(n%10!=1 || n%100==11)", "n != 1 && n != 2 && n != 3 && (n % 10 == 4 || n % 10 == 6 || n % 10 == 9)",
	"n == 1 || n % 10 == 1 ? 0 : 1", "n >= 2 && (n < 11 || n > 99)", "(n!=0)", "n==1 ? 0 : n==0 || n==2 ? 1 : 2",
	"n==1 ? 3 : n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2",
	"n==1?0:(n==0||(n%100>0&&n%100<20))?1:2", "n%10==1?0:n%10==2?1:2", "1==n?0:1", "n<=1?0:2<=n&&n<=4?1:2",
}

func (g *Rng) ruleInt() string {
	switch g.n(12) {
	case 0:
		return "4294967295"
	case 1:
		return g.s1("1000000", "65536", "2147483648", "4294967294", "100000")
	case 2, 3, 4:
		return g.s1("10", "100", "1000")
	}
	return fmt.Sprint(g.n(25))
}

func (g *Rng) ruleTest(d int) string {
	if d > 0 && g.p(55) {
		s := g.ruleTest(d-1) + g.s1("||", "&&") + g.ruleTest(d-1)
		if g.p(40) {
			s = "(" + s + ")"
		}
		return s
	}
	x := "n"
	if g.p(45) {
		m := g.ruleInt()
		if m == "0" {
			m = "7"
		}
		x = "n%" + m
	}
	op := g.s1("==", "!=", "<", ">", "<=", ">=")
	s := x + op + g.ruleInt()
	if g.p(15) {
		s = g.ruleInt() + op + x
	}
	for g.p(15) {
		s = "(" + s + ")"
	}
	return s
}

func (g *Rng) ruleExpr(d int) string {
	if d == 0 || g.p(20) {
		return fmt.Sprint(g.n(10))
	}
	a := fmt.Sprint(g.n(10))
	if g.p(20) {
		a = "(" + g.ruleExpr(d-1) + ")"
	}
	s := g.ruleTest(g.n(3)) + "?" + a + ":" + g.ruleExpr(d-1)
	if g.p(25) {
		s = "(" + s + ")"
	}
	return s
}

func (g *Rng) cExpr(d int) string {
	if d == 0 || g.p(20) {
		return g.s1("n", "n", "0", "1", "2", "10", "100", fmt.Sprint(g.n(20)))
	}
	switch g.n(7) {
	case 0:
		return "!" + g.cExpr(d-1)
	case 1, 2:
		return "(" + g.cExpr(d-1) + ")"
	case 3:
		return g.cExpr(d-1) + "?" + g.cExpr(d-1) + ":" + g.cExpr(d-1)
	}
	return g.cExpr(d-1) + g.s1("==", "!=", "<", ">", "<=", ">=", "&&", "||", "%", "+", "-", "*", "/") + g.cExpr(d-1)
}

func (g *Rng) spaced(s string) string {
	for _, o := range []string{"||", "&&", "==", "!=", "<=", ">=", "?", ":", "%", "(", ")"} {
		if g.p(50) {
			continue
		}
		s = strings.ReplaceAll(s, o, strings.Repeat(" ", g.n(2))+o+strings.Repeat(" ", g.n(3)))
	}
	if g.p(20) {
		s = " " + s
	}
	if g.p(20) {
		s += " "
	}
	return s
}

const ruleChars = "n0123456789%()?:=!<>&| n%()?:==!<>&&||+-*/xN#é\t;"

func (g *Rng) hurt(s string) string {
	for i := g.rng(1, 3); i > 0; i-- {
		at, to := 0, 0
		if len(s) > 0 {
			at, to = g.n(len(s)), g.n(len(s)+1)
		}
		c := string(ruleChars[g.n(len(ruleChars))])
		switch g.n(7) {
		case 0:
			s = s[:at]
		case 1:
			s = s[at:]
		case 2:
			s = s[:at] + c + s[at:]
		case 3:
			if len(s) > 0 {
				s = s[:at] + s[at+1:]
			}
		case 4:
			if len(s) > 0 {
				s = s[:at] + c + s[at+1:]
			}
		case 5:
			if at < to {
				s = s[:at] + s[to:]
			} else {
				s = s[:at] + s[to:at] + s[at:]
			}
		default:
			s = s[:at] + g.s1("(", ")", "()", "?", ":", "n", "%0", "%", "==", "&&", "((", "))", "?:", "0", "-1", "99999999999999999999") + s[at:]
		}
	}
	return s
}

func (g *Rng) rule() string {
	switch g.n(13) {
	case 0, 1, 2:
		return g.spaced(realRules[g.n(len(realRules))])
	case 3, 4, 5:
		return g.spaced(g.ruleExpr(g.n(4)))
	case 6:
		return g.spaced(g.ruleTest(g.n(4)))
	case 7:
		return g.spaced(g.cExpr(g.n(4)))
	case 8:
		n := g.rng(0, 12)
		s := ""
		for i := 0; i < n; i++ {
			s += string(ruleChars[g.n(len(ruleChars))])
		}
		return s
	case 9:
		return g.hurt(g.spaced(g.ruleExpr(g.n(3))))
	case 10:
		// a space anywhere
		s := g.hurt(g.spaced(g.ruleExpr(g.n(3))))
		if g.p(50) {
			s = g.spaced(g.ruleExpr(g.rng(1, 3)))
		}
		for i := g.rng(1, 3); i > 0; i-- {
			at := g.n(len(s) + 1)
			s = s[:at] + " " + s[at:]
		}
		return s
	}
	return g.hurt(realRules[g.n(len(realRules))])
}

// nearly is s with spaces elsewhere, or with another digit or operator.
func (g *Rng) nearly(s string) string {
	if s == "" {
		return " "
	}
	inside := func(ok func(a, b byte) bool) (l []int) {
		for i := 1; i < len(s); i++ {
			if ok(s[i-1], s[i]) {
				l = append(l, i)
			}
		}
		return
	}
	dig := func(c byte) bool { return c >= '0' && c <= '9' }
	sep := func(l []int) string {
		if len(l) == 0 {
			return s + g.s1(" ", "0", " 0")
		}
		at := l[g.n(len(l))]
		return s[:at] + strings.Repeat(" ", g.rng(1, 2)) + s[at:]
	}
	switch g.n(7) {
	case 0, 1: // a number taken apart
		return sep(inside(func(a, b byte) bool { return dig(a) && dig(b) }))
	case 2: // an operator taken apart
		return sep(inside(func(a, b byte) bool {
			return strings.Contains(" == != <= >= && || ", " "+string([]byte{a, b})+" ")
		}))
	case 3:
		return strings.ReplaceAll(s, " ", "")
	case 4:
		return g.spaced(strings.ReplaceAll(s, " ", ""))
	case 5: // another digit
		if l := inside(func(a, b byte) bool { return dig(b) }); len(l) > 0 {
			at := l[g.n(len(l))]
			return s[:at] + string(rune('0'+g.n(10))) + s[at+1:]
		}
	}
	b := []byte(s)
	for i := g.n(len(b)); i < len(b); i++ {
		if at := strings.IndexByte("=!<>&|()", b[i]); at >= 0 {
			b[i] = "!=><|&)("[at]
			break
		}
	}
	return string(b)
}

func genRules(g *Rng, p *Plan) {
	for i := g.rng(1, 4); i > 0; i-- {
		p.Strs = append(p.Strs, g.rule())
	}
	if g.p(35) {
		// nearly the same rule
		for i := g.rng(1, 2); i > 0; i-- {
			s := p.Strs[g.n(len(p.Strs))]
			at := g.n(len(p.Strs) + 1)
			p.Strs = append(p.Strs[:at], append([]string{g.nearly(s)}, p.Strs[at:]...)...)
		}
	}
	p.P["pre"] = g.n(1 << 6)
	for t := g.rng(1, 4); t > 0; t-- {
		var ops []Op
		for i := g.rng(1, 3); i > 0; i-- {
			ops = append(ops, Op{K: g.weighted("compile:6 header:3 shared:3"), J: g.n(len(p.Strs)), N: g.n(1 << 20), D: g.p(50)})
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

// ruleOracle says what a rule may do.
type ruleOracle struct {
	ast   *cnode
	must  bool // it has to compile
	free  bool // anything but a panic
	error bool // it has to be refused
}

func oracleOf(s string) *ruleOracle {
	o := &ruleOracle{}
	c, err := parseC(s)
	if err != nil {
		o.error = true
		return o
	}
	o.must = c.plain() && !strings.ContainsAny(s, "\t\n\v\f\r")
	o.ast = c
	o.free = c.loose(false) || c.octal()
	o.must = o.must && !c.octal()
	return o
}

func countsFor(c *cnode, seed int) []uint32 {
	var l []uint32
	for n := uint32(0); n <= 130; n++ {
		l = append(l, n)
	}
	l = append(l, 199, 200, 201, 211, 999, 1000, 1001, 1011, 1000000, 1000001, 2000000, 1<<31-1, 1<<31, 1<<32-2, 1<<32-1)
	if c != nil {
		cs := c.consts(nil)
		for _, x := range cs {
			for _, d := range []uint64{x - 1, x, x + 1, x * 3, x*10 + 1} {
				if d < 1<<32 {
					l = append(l, uint32(d))
				}
			}
			for _, y := range cs {
				if x+y < 1<<32 {
					l = append(l, uint32(x+y))
				}
			}
		}
	}
	g := newRng(uint64(seed))
	for i := 0; i < 20; i++ {
		l = append(l, uint32(g.n(1<<32)))
	}
	if c != nil {
		// big rules are evaluated for fewer counts
		max := 20000/(c.size()+1) + 30
		for len(l) > max {
			i := g.n(len(l))
			l[i] = l[len(l)-1]
			l = l[:len(l)-1]
		}
	}
	return l
}

func runRules(e *Env) {
	p := e.P
	ors := make([]*ruleOracle, len(p.Strs))
	for i, s := range p.Strs {
		ors[i] = oracleOf(s)
	}
	type result struct {
		done bool
		expr plurals.Expression
		err  error
	}
	type failFn = func(kind, f string, a ...interface{})
	check := func(fail failFn, j int, expr plurals.Expression, counts []uint32) {
		s, o := p.Strs[j], ors[j]
		for _, n := range counts {
			got := 0
			if pan, _ := guard(func() { got = expr.Eval(n) }); pan != "" {
				fail("panic", "evaluating %q for %d panicked: %s", s, n, pan)
				return
			}
			if o.free || o.ast == nil {
				continue
			}
			want, err := o.ast.eval(uint64(n))
			if err != nil || want > 1<<31-1 {
				continue
			}
			if got != int(want) {
				fail("value", "the rule %q gives %d for %d instead of %d", s, got, n, want)
				return
			}
		}
	}
	compile := func(fail failFn, j int) (r result) {
		s, o := p.Strs[j], ors[j]
		var expr plurals.Expression
		var err error
		if pan, _ := guard(func() { expr, err = plurals.Compile(s) }); pan != "" {
			fail("panic", "compiling %q panicked: %s", s, pan)
			return
		}
		switch {
		case err == nil && expr == nil:
			fail("nil", "compiling %q gives neither a rule nor an error", s)
		case err == nil && o.error:
			fail("accepted", "the rule %q is no expression, but was accepted", s)
		case err != nil && o.must:
			fail("refused", "the rule %q was refused: %v", s, err)
		default:
			return result{true, expr, err}
		}
		return
	}
	same := func(fail failFn, s string, a, b result, counts []uint32) {
		if (a.err == nil) != (b.err == nil) {
			fail("differs", "compiling %q twice gives the errors %v and %v", s, a.err, b.err)
			return
		}
		if a.err != nil {
			return
		}
		for _, n := range counts {
			x, y := 0, 0
			if pan, _ := guard(func() { x, y = a.expr.Eval(n), b.expr.Eval(n) }); pan == "" && x != y {
				fail("differs", "two compilations of %q give %d and %d for %d", s, x, y, n)
				return
			}
		}
	}
	// some rules are compiled before and used by all clients at once
	shared := make([]result, len(p.Strs))
	if !e.seq("prepare", func() {
		for j := range p.Strs {
			if p.P["pre"]>>j&1 == 1 {
				shared[j] = compile(e.R.fail, j)
			}
		}
	}) || e.R.Viol != "" {
		return
	}
	bad := make([]Result, len(p.Tasks))
	mine := make([][]result, len(p.Tasks))
	var names []string
	var fns []func()
	for t := range p.Tasks {
		t := t
		mine[t] = make([]result, len(p.Strs))
		names = append(names, fmt.Sprintf("client%d", t))
		fns = append(fns, func() {
			for _, op := range p.Tasks[t] {
				if len(p.Strs) == 0 || bad[t].Viol != "" {
					return
				}
				j := op.J % len(p.Strs)
				s, o := p.Strs[j], ors[j]
				counts := countsFor(o.ast, op.N)
				if op.K == "header" {
					if strings.ContainsAny(s, ";\"\\\n\r") || strings.TrimSpace(s) == "" {
						continue
					}
					checkHeader(bad[t].fail, s, o, counts, op)
					continue
				}
				if op.K == "shared" {
					if shared[j].done && shared[j].err == nil {
						check(bad[t].fail, j, shared[j].expr, counts)
					}
					continue
				}
				r := compile(bad[t].fail, j)
				if !r.done {
					return
				}
				if r.err != nil {
					rt.Count("refused")
				} else {
					check(bad[t].fail, j, r.expr, counts)
				}
				if shared[j].done {
					same(bad[t].fail, s, shared[j], r, counts)
				}
				if mine[t][j].done {
					same(bad[t].fail, s, mine[t][j], r, counts)
				}
				mine[t][j] = r
			}
		})
	}
	e.multi = true
	if !e.stageRun(names, fns) {
		return
	}
	for t := range bad {
		if bad[t].Viol != "" {
			e.R.fail(bad[t].Class, "%s", bad[t].Viol)
			return
		}
	}
	// what the clients compiled, compared with each other
	e.seq("compare", func() {
		for j, s := range p.Strs {
			for t := range mine {
				if t > 0 && mine[t][j].done && mine[t-1][j].done {
					same(e.R.fail, s, mine[t-1][j], mine[t][j], countsFor(ors[j].ast, j))
				}
			}
		}
	})
}

// checkHeader uses the rule through the header of a catalogue.
func checkHeader(fail func(string, string, ...interface{}), s string, o *ruleOracle, counts []uint32, op Op) {
	var b strings.Builder
	fmt.Fprintf(&b, "msgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\"\n\"Plural-Forms: nplurals=10; plural=%s;\\n\"\n\nmsgid \"one\"\nmsgid_plural \"many\"\n", s)
	for i := 0; i < 10; i++ {
		fmt.Fprintf(&b, "msgstr[%d] \"form%d\"\n", i, i)
	}
	po := gotext.NewPo()
	if pan, _ := guard(func() { po.Parse([]byte(b.String())) }); pan != "" {
		fail("panic", "loading a file with the rule %q panicked: %s", s, pan)
		return
	}
	if op.D {
		data, err := po.MarshalBinary()
		if err != nil {
			fail("cache", "exporting a file with the rule %q: %v", s, err)
			return
		}
		po = gotext.NewPo()
		if pan, _ := guard(func() { err = po.UnmarshalBinary(data) }); pan != "" || err != nil {
			fail("cache", "importing a file with the rule %q: %s %v", s, pan, err)
			return
		}
	}
	for i, n := range counts {
		if i%7 != op.N%7 {
			continue
		}
		got := ""
		if pan, _ := guard(func() { got = po.GetN("one", "many", int(n)) }); pan != "" {
			fail("panic", "a lookup with the rule %q and count %d panicked: %s", s, n, pan)
			return
		}
		if o.free {
			continue
		}
		germ := fmt.Sprintf("form%d", germanic(int(n)))
		want, can := "", false
		if o.ast != nil {
			if v, err := o.ast.eval(uint64(n)); err == nil {
				can = true
				if v < 10 {
					want = fmt.Sprintf("form%d", v)
				} else {
					want = "many"
				}
			}
		}
		if can && got == want || !o.must && got == germ {
			continue
		}
		fail("answer", "a lookup with the rule %q and count %d answers %q instead of %q", s, n, got, want)
		return
	}
}

func init() {
	register(&Scenario{Name: "rules", Gen: genRules, Run: runRules})
}
