package main

import (
	"strconv"
	"strings"

	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

// Generated programs. They draw their names from a small pool, so that declarations
// clash, exports, labels and private names are missing, and several mistakes meet in one
// program: which of them is reported, and everything derived from the scopes, has to be
// the same every time.

type pgen struct {
	r    *sim.Run
	b    strings.Builder
	n    int // budget of constructs
	ts   bool
	jsx  bool
	kind string
	deep int
	loop int
	fn   int
}

var genNames = []string{"a", "b", "c", "d", "e", "f", "x", "y", "foo", "A", "B", "ünï", "\\u0061b", "async", "of", "get", "type", "as"}

func (g *pgen) c(n int) int { return g.r.Choose(sim.SW, n) }

func (g *pgen) w(ss ...string) {
	for _, s := range ss {
		g.b.WriteString(s)
	}
}

// names longer than any usual buffer or threshold
var longNames = []string{strings.Repeat("long", 7), "aVeryDescriptiveIdentifierNameThatGoesOnAndOn", strings.Repeat("z", 70), "ünïcödeÎdentifierWithManyLettersInIt"}

func (g *pgen) name() string {
	i := g.r.Small(sim.SW, len(genNames)+1)
	if i == len(genNames) {
		return longNames[g.c(len(longNames))]
	}
	return genNames[i]
}

func (g *pgen) id() { g.w(g.name()) }

func (g *pgen) str() {
	g.w([]string{"'s'", `"a\nb"`, `"\u{1F600}é"`, `'\x41\0'`, `"it's"`, "''", `'a\
b'`}[g.c(7)])
}

func (g *pgen) num() {
	g.w([]string{"1", "0", "1.5", "0x1F", "0b101", "0o17", "1e3", "1_000", "12n", ".5", "017"}[g.c(11)])
}

func (g *pgen) list(max int, sep string, f func()) {
	for i, k := 0, g.c(max+1); i < k; i++ {
		if i > 0 {
			g.w(sep)
		}
		f()
	}
}

func (g *pgen) typ() {
	if g.n--; g.n < 0 || g.deep > 6 {
		g.w("any")
		return
	}
	g.deep++
	defer func() { g.deep-- }()
	switch g.c(22) {
	case 0:
		g.w("string")
	case 1:
		g.w("number")
	case 2:
		g.id()
	case 3:
		g.typ()
		g.w("[]")
	case 4:
		g.typ()
		g.w(" | ")
		g.typ()
	case 5:
		g.typ()
		g.w(" & ")
		g.typ()
	case 6:
		g.w("{ ")
		g.list(3, "; ", g.sig)
		g.w(" }")
	case 7:
		g.w("(")
		g.params()
		g.w(") => ")
		g.typ()
	case 8:
		g.id()
		g.w("<")
		g.typ()
		g.w(">")
	case 9:
		g.w("[")
		g.list(3, ", ", g.typ)
		g.w("]")
	case 10:
		g.w("keyof ")
		g.typ()
	case 11:
		g.w("typeof ")
		g.id()
	case 12:
		g.typ()
		g.w(" extends ")
		g.typ()
		g.w(" ? ")
		g.typ()
		g.w(" : ")
		g.typ()
	case 13:
		g.w("{ [K in ")
		g.typ()
		g.w("]?: ")
		g.typ()
		g.w(" }")
	case 14:
		g.str()
	case 15:
		g.w("(")
		g.typ()
		g.w(")")
	case 16:
		g.w("import('m').")
		g.id()
	case 17:
		g.id()
		g.w(".")
		g.id()
	case 18:
		g.id()
		g.w("[")
		g.typ()
		g.w("]")
	case 19:
		g.w("new () => ")
		g.typ()
	case 20:
		g.w([]string{"void", "never", "unknown", "null", "undefined", "bigint", "symbol", "object", "this", "boolean"}[g.c(10)])
	case 21:
		g.w("unique symbol")
	}
}

func (g *pgen) sig() {
	switch g.c(6) {
	case 0:
		g.id()
		g.w("?: ")
		g.typ()
	case 1:
		g.id()
		g.w("(")
		g.params()
		g.w("): ")
		g.typ()
	case 2:
		g.w("[k: string]: ")
		g.typ()
	case 3:
		g.w("new (")
		g.params()
		g.w("): ")
		g.typ()
	case 4:
		g.w("readonly ")
		g.id()
		g.w(": ")
		g.typ()
	case 5:
		g.w("(")
		g.params()
		g.w("): ")
		g.typ()
	}
}

func (g *pgen) annot() {
	if g.ts && g.c(2) == 1 {
		g.w(": ")
		g.typ()
	}
}

func (g *pgen) pat() {
	if g.n--; g.n < 0 || g.deep > 6 {
		g.id()
		return
	}
	g.deep++
	defer func() { g.deep-- }()
	switch g.c(6) {
	case 0, 1, 2:
		g.id()
	case 3:
		g.w("[")
		g.list(3, ", ", g.patDef)
		if g.c(3) == 1 {
			g.w(", ...")
			g.id()
		}
		g.w("]")
	case 4:
		g.w("{ ")
		g.list(3, ", ", func() {
			switch g.c(3) {
			case 0:
				g.id()
			case 1:
				g.id()
				g.w(": ")
				g.patDef()
			case 2:
				g.w("[")
				g.expr()
				g.w("]: ")
				g.patDef()
			}
		})
		g.w(" }")
	case 5:
		g.id()
	}
}

func (g *pgen) patDef() {
	g.pat()
	if g.c(4) == 1 {
		g.w(" = ")
		g.expr()
	}
}

func (g *pgen) param() {
	if g.ts && g.c(8) == 1 {
		g.w([]string{"public ", "private ", "readonly "}[g.c(3)])
		g.id()
		g.annot()
		return
	}
	g.pat()
	g.annot()
	if g.c(4) == 1 {
		g.w(" = ")
		g.expr()
	}
}

func (g *pgen) params() {
	g.list(3, ", ", g.param)
	if g.c(6) == 1 {
		g.w(", ...")
		g.id()
	}
}

func (g *pgen) fnBody() {
	l := g.loop
	g.loop = 0
	g.fn++
	g.w(" {\n")
	if g.c(8) == 1 {
		g.w("'use strict';\n")
	}
	g.stmts(3)
	if g.c(2) == 1 {
		g.w("return ")
		g.expr()
		g.w(";\n")
	}
	g.w("}")
	g.fn--
	g.loop = l
}

func (g *pgen) args() {
	g.w("(")
	g.list(3, ", ", func() {
		if g.c(6) == 1 {
			g.w("...")
		}
		g.expr()
	})
	g.w(")")
}

func (g *pgen) key() {
	switch g.c(6) {
	case 0, 1, 2:
		g.id()
	case 3:
		g.str()
	case 4:
		g.w("[")
		g.expr()
		g.w("]")
	case 5:
		g.w([]string{"__proto__", "1", "default", "constructor"}[g.c(4)])
	}
}

func (g *pgen) prop() {
	switch g.c(8) {
	case 0, 1, 2:
		g.key()
		g.w(": ")
		g.expr()
	case 3:
		g.id()
	case 4:
		g.w("...")
		g.expr()
	case 5:
		g.w([]string{"", "get ", "set ", "async ", "*", "async *"}[g.c(6)])
		g.key()
		g.w("(")
		g.params()
		g.w(")")
		g.fnBody()
	case 6:
		g.id()
		g.w(": function (")
		g.params()
		g.w(")")
		g.fnBody()
	case 7:
		g.key()
		g.w("() {}")
	}
}

func (g *pgen) tpl() {
	g.w("`t")
	for i := g.c(3); i > 0; i-- {
		g.w("${")
		g.expr()
		g.w("} \\n x")
	}
	g.w("`")
}

func (g *pgen) jsxElem() {
	if g.n--; g.n < 0 || g.deep > 6 {
		g.w("<i/>")
		return
	}
	g.deep++
	defer func() { g.deep-- }()
	nm := []string{"a", "div", "A.b", "x:y", ""}[g.c(5)]
	g.w("<", nm)
	if nm != "" {
		for i := g.c(3); i > 0; i-- {
			switch g.c(5) {
			case 0:
				g.w(" k='v'")
			case 1:
				g.w(" k={")
				g.expr()
				g.w("}")
			case 2:
				g.w(" {...")
				g.id()
				g.w("}")
			case 3:
				g.w(" data-x")
			case 4:
				g.w(" n:s=\"&amp; &lt;\"")
			}
		}
		if g.c(4) == 1 {
			g.w("/>")
			return
		}
	}
	g.w(">")
	for i := g.c(4); i > 0; i-- {
		switch g.c(6) {
		case 0:
			g.w(" text\n ")
		case 1:
			g.w([]string{"&amp;", "x &lt; y", "&nbsp;", "&copy; z", "&bogus;", "&hellip;\n"}[g.c(6)])
		case 2:
			g.w("{")
			g.expr()
			g.w("}")
		case 3:
			g.jsxElem()
		case 4:
			g.w("{/* c */}")
		case 5:
			g.w("{...")
			g.id()
			g.w("}")
		}
	}
	g.w("</", nm, ">")
}

// evalExpr writes what the constant evaluator is made for.
func (g *pgen) evalExpr(d int) {
	k := g.c(16)
	if d > 4 {
		k = g.c(9)
	}
	switch k {
	case 0:
		g.w("process.env.", []string{"NODE_ENV", "FOO", "toString"}[g.c(3)])
	case 1:
		g.w("c[", []string{"0", "1", "7", "-1", "'0'", "a", "b"}[g.c(7)], "]")
	case 2:
		g.w([]string{"a", "b", "c", "d", "g", "undefined", "process"}[g.c(7)])
	case 3, 4:
		g.w([]string{"true", "false", "null", "0", "1", "2.5", "'x'", "''", "'production'"}[g.c(9)])
	case 5:
		g.num()
	case 6:
		g.w("process['env']['NODE_ENV']")
	case 7:
		g.w("c.includes(", []string{"1", "'x'", "a", "", "c"}[g.c(5)], ")")
	case 8:
		g.w([]string{"c.length", "g.h", "g.h.i", "g.k[1]", "b.includes"}[g.c(5)])
	case 9, 10, 11:
		g.evalExpr(d + 1)
		g.w(" ", []string{"===", "!==", "==", "!=", "&&", "||", "+", "-", "*", "/"}[g.c(10)], " ")
		g.evalExpr(d + 1)
	case 12:
		g.w("!")
		g.evalExpr(d + 2)
	case 13:
		g.w("[")
		g.list(4, ", ", func() { g.evalExpr(d + 2) })
		g.w("].includes(")
		g.evalExpr(d + 2)
		g.w(")")
	case 14:
		g.w("(")
		g.evalExpr(d + 1)
		g.w(" ? ")
		g.evalExpr(d + 1)
		g.w(" : ")
		g.evalExpr(d + 1)
		g.w(")")
	default:
		g.w("(")
		g.evalExpr(d + 1)
		g.w(")")
	}
}

func (g *pgen) expr() {
	if g.n--; g.n < 0 || g.deep > 8 {
		g.id()
		return
	}
	g.deep++
	defer func() { g.deep-- }()
	if g.c(12) == 11 {
		g.evalExpr(0)
		return
	}
	switch g.c(40) {
	case 0, 1, 2:
		g.id()
	case 3:
		g.num()
	case 4:
		g.str()
	case 5, 6:
		g.expr()
		g.w(" ", []string{"+", "-", "*", "/", "%", "**", "<<", ">>", ">>>", "&", "|", "^", "==", "===", "!=", "!==", "<", ">", "<=", ">=", "in", "instanceof"}[g.c(22)], " ")
		g.expr()
	case 7:
		g.expr()
		g.w(" ", []string{"&&", "||", "??"}[g.c(3)], " ")
		g.expr()
	case 8:
		g.w([]string{"!", "-", "+", "~", "typeof ", "void ", "delete "}[g.c(7)])
		g.expr()
	case 9:
		g.expr()
		g.w(" ? ")
		g.expr()
		g.w(" : ")
		g.expr()
	case 10:
		g.id()
		g.w(" ", []string{"=", "+=", "-=", "**=", "&&=", "||=", "??=", ">>>="}[g.c(8)], " ")
		g.expr()
	case 11:
		g.expr()
		g.w(".")
		g.id()
	case 12:
		g.expr()
		g.w("[")
		g.expr()
		g.w("]")
	case 13, 14:
		g.expr()
		g.args()
	case 15:
		g.w("[")
		g.list(4, ", ", func() {
			switch g.c(6) {
			case 0:
			case 1:
				g.w("...")
				g.expr()
			default:
				g.expr()
			}
		})
		g.w("]")
	case 16, 17:
		g.w("({ ")
		g.list(3, ", ", g.prop)
		g.w(" })")
	case 18:
		g.w("(")
		g.params()
		g.w(")")
		g.annot()
		g.w(" =>")
		g.fnBody()
	case 19:
		g.w([]string{"", "async "}[g.c(2)])
		g.id()
		g.w(" => ")
		g.expr()
	case 20:
		g.w([]string{"function ", "async function ", "function* "}[g.c(3)])
		if g.c(2) == 1 {
			g.id()
		}
		g.w("(")
		g.params()
		g.w(")")
		g.fnBody()
	case 21:
		g.tpl()
	case 22:
		g.id()
		g.tpl()
	case 23:
		g.w("/a[b/]+(?<n>c)/gi")
	case 24:
		g.w("new ")
		g.id()
		g.args()
	case 25:
		g.w("(")
		g.expr()
		g.w(")")
	case 26:
		g.id()
		g.w([]string{"++", "--"}[g.c(2)])
	case 27:
		g.w([]string{"++", "--"}[g.c(2)])
		g.id()
	case 28:
		g.expr()
		g.w("?.")
		switch g.c(3) {
		case 0:
			g.id()
		case 1:
			g.args()
		case 2:
			g.w("[")
			g.expr()
			g.w("]")
		}
	case 29:
		g.w("(")
		g.expr()
		g.w(", ")
		g.expr()
		g.w(")")
	case 30:
		if g.fn > 0 {
			g.w([]string{"yield ", "await ", "yield* "}[g.c(3)])
		}
		g.expr()
	case 31:
		g.w([]string{"this", "null", "true", "false", "undefined", "import.meta", "new.target", "super.x"}[g.c(8)])
	case 32:
		g.w("import(")
		g.expr()
		g.w(")")
	case 33:
		g.class()
	case 34:
		if g.ts {
			g.expr()
			g.w(" as ")
			g.typ()
		} else {
			g.id()
		}
	case 35:
		if g.ts {
			g.id()
			g.w("!")
		} else {
			g.num()
		}
	case 36, 37:
		if g.jsx {
			g.jsxElem()
		} else {
			g.id()
		}
	case 38:
		if g.ts && !g.jsx {
			g.w("<")
			g.typ()
			g.w(">")
			g.id()
		} else {
			g.id()
		}
	case 39:
		g.w("/* e */ ")
		g.expr()
		if g.c(2) == 1 {
			g.w(" // f\n")
		}
	}
}

func (g *pgen) class() {
	if g.c(5) == 1 {
		g.w("@")
		g.id()
		g.w(" ")
	}
	g.w("class ")
	g.id()
	if g.ts && g.c(4) == 1 {
		g.w("<")
		g.id()
		g.w(" extends ")
		g.typ()
		g.w(">")
	}
	if g.c(3) == 1 {
		g.w(" extends ")
		g.id()
	}
	if g.ts && g.c(5) == 1 {
		g.w(" implements ")
		g.id()
	}
	g.w(" {\n")
	for i := g.c(5); i > 0; i-- {
		if g.c(8) == 1 {
			g.w("@")
			g.id()
			g.w("() ")
		}
		if g.ts && g.c(5) == 1 {
			g.w([]string{"private ", "public ", "protected ", "readonly ", "abstract ", "override ", "declare "}[g.c(7)])
		}
		if g.c(4) == 1 {
			g.w("static ")
		}
		switch g.c(9) {
		case 0, 1:
			g.id()
			g.annot()
			g.w(" = ")
			g.expr()
			g.w(";\n")
		case 2:
			g.w("#", g.name(), " = ")
			g.expr()
			g.w(";\n")
		case 3, 4:
			g.w([]string{"", "get ", "set ", "async ", "*"}[g.c(5)])
			g.key()
			g.w("(")
			g.params()
			g.w(")")
			g.fnBody()
			g.w("\n")
		case 5:
			g.w("#", g.name(), "() { return this.#", g.name(), " }\n")
		case 6:
			g.w("constructor(")
			g.params()
			g.w(")")
			g.fnBody()
			g.w("\n")
		case 7:
			g.w("m", strconv.Itoa(i), "() { ")
			g.w("return #", g.name(), " in this && this.#", g.name(), " && ")
			g.expr()
			g.w(" }\n")
		case 8:
			g.w("{ ")
			g.stmts(2)
			g.w(" }\n")
		}
	}
	g.w("}")
}

func (g *pgen) block() {
	g.w("{\n")
	g.stmts(3)
	g.w("}")
}

func (g *pgen) body() {
	g.loop++
	g.block()
	g.loop--
	g.w("\n")
}

func (g *pgen) stmts(max int) {
	for i := g.c(max + 1); i > 0; i-- {
		g.stmt(false)
	}
}

func (g *pgen) varDec() {
	g.w([]string{"var ", "let ", "const "}[g.c(3)])
	for i, k := 0, 1+g.r.Small(sim.SW, 3); i < k; i++ {
		if i > 0 {
			g.w(", ")
		}
		g.pat()
		g.annot()
		g.w(" = ")
		g.expr()
	}
}

func (g *pgen) fnDec() {
	g.w([]string{"function ", "async function ", "function* ", "async function* "}[g.r.Small(sim.SW, 4)])
	g.id()
	if g.ts && g.c(4) == 1 {
		g.w("<")
		g.id()
		g.w(">")
	}
	g.w("(")
	g.params()
	g.w(")")
	g.annot()
	if g.ts && g.c(8) == 1 {
		g.w("; ")
		return
	}
	g.fnBody()
}

func (g *pgen) label() string { return []string{"l1", "l2", "l3"}[g.c(3)] }

func (g *pgen) stmt(top bool) {
	if g.n--; g.n < 0 || g.deep > 8 {
		g.w(";\n")
		return
	}
	g.deep++
	defer func() { g.deep-- }()
	n := 26
	if g.ts {
		n += 8
	}
	if top {
		n += 9
	}
	k := g.c(n)
	if !g.ts && k >= 26 {
		k += 8
	}
	switch k {
	case 0, 1, 2:
		g.expr()
		g.w(";\n")
	case 3, 4, 5:
		g.varDec()
		g.w(";\n")
	case 6, 7:
		g.fnDec()
		g.w("\n")
	case 8:
		g.class()
		g.w("\n")
	case 9, 10:
		g.w("if (")
		g.expr()
		g.w(") ")
		g.stmt(false)
		if g.c(2) == 1 {
			g.w(" else ")
			g.stmt(false)
		}
	case 11:
		g.block()
		g.w("\n")
	case 12:
		g.w("for (")
		g.varDec()
		g.w("; ")
		g.expr()
		g.w("; ")
		g.expr()
		g.w(") ")
		g.body()
	case 13:
		g.w("for (", []string{"const ", "let ", "var ", ""}[g.c(4)])
		g.pat()
		g.w([]string{" of ", " in "}[g.c(2)])
		g.expr()
		g.w(") ")
		g.body()
	case 14:
		g.w("while (")
		g.expr()
		g.w(") ")
		g.body()
	case 15:
		g.w("do ")
		g.body()
		g.w(" while (")
		g.expr()
		g.w(");\n")
	case 16, 17:
		g.w("switch (")
		g.expr()
		g.w(") {\n")
		for i := g.c(4); i > 0; i-- {
			if g.c(4) == 1 {
				g.w("default:\n")
			} else {
				g.w("case ")
				g.expr()
				g.w(":\n")
			}
			g.loop++
			g.stmts(2)
			g.loop--
			if g.c(2) == 1 {
				g.w("break;\n")
			}
		}
		g.w("}\n")
	case 18, 19:
		g.w("try ")
		g.block()
		c := g.c(3)
		if c != 1 {
			g.w(" catch ")
			if g.c(3) > 0 {
				g.w("(")
				g.pat()
				g.w(") ")
			}
			g.block()
		}
		if c != 0 {
			g.w(" finally ")
			g.block()
		}
		g.w("\n")
	case 20:
		g.w(g.label(), ": ")
		g.stmt(false)
	case 21:
		if g.loop > 0 || g.c(6) == 1 {
			g.w([]string{"break", "continue"}[g.c(2)])
			if g.c(2) == 1 {
				g.w(" ", g.label())
			}
		}
		g.w(";\n")
	case 22:
		if g.fn > 0 || g.c(8) == 1 {
			g.w("return ")
		} else {
			g.w("throw ")
		}
		g.expr()
		g.w(";\n")
	case 23:
		g.w("// line ", g.name(), "\n")
	case 24:
		g.w("/* block */ ")
		g.stmt(false)
	case 25:
		g.w([]string{"debugger;\n", ";\n", "with (a) { b }\n", "'use strict'\n"}[g.c(4)])
	// TypeScript
	case 26:
		g.w("interface ")
		g.id()
		g.w(" { ")
		g.list(4, "; ", g.sig)
		g.w(" }\n")
	case 27:
		g.w("type ")
		g.id()
		g.w(" = ")
		g.typ()
		g.w(";\n")
	case 28:
		g.w([]string{"", "const ", "declare "}[g.c(3)], "enum ")
		g.id()
		g.w(" { ")
		g.list(4, ", ", func() {
			g.id()
			if g.c(2) == 1 {
				g.w(" = ")
				g.expr()
			}
		})
		g.w(" }\n")
	case 29:
		g.w([]string{"namespace ", "declare namespace ", "module "}[g.c(3)])
		g.id()
		g.w(" {\n")
		for i := g.c(3); i > 0; i-- {
			if g.c(2) == 1 {
				g.w("export ")
				g.varDec()
				g.w(";\n")
			} else {
				g.stmt(false)
			}
		}
		g.w("}\n")
	case 30:
		g.w("declare ")
		switch g.c(3) {
		case 0:
			g.w("function ")
			g.id()
			g.w("(")
			g.params()
			g.w("): ")
			g.typ()
			g.w(";\n")
		case 1:
			g.w("let ")
			g.id()
			g.w(": ")
			g.typ()
			g.w(";\n")
		case 2:
			g.class()
			g.w("\n")
		}
	case 31:
		g.w("abstract ")
		g.class()
		g.w("\n")
	case 32:
		g.w("import ")
		g.id()
		g.w(" = require('m');\n")
	case 33:
		g.w("function ")
		g.id()
		g.w("(x: any): x is ")
		g.typ()
		g.w(" { return true }\n")
	// only at the top
	case 34:
		g.w("import ")
		g.id()
		g.w(" from 'm';\n")
	case 35:
		g.w("import { ")
		g.list(4, ", ", g.spec)
		g.w(" } from 'm';\n")
	case 36:
		g.w("import * as ")
		g.id()
		g.w(" from 'm';\n")
	case 37, 38:
		g.w("export { ")
		g.list(5, ", ", g.spec)
		g.w(" };\n")
	case 39:
		g.w("export ")
		switch g.c(3) {
		case 0:
			g.varDec()
			g.w(";\n")
		case 1:
			g.fnDec()
			g.w("\n")
		case 2:
			g.class()
			g.w("\n")
		}
	case 40:
		g.w("export default ")
		g.expr()
		g.w(";\n")
	case 41:
		g.w("export * from 'm';\n")
	case 42:
		g.w("export { ")
		g.list(3, ", ", g.spec)
		g.w(" } from 'm';\n")
	}
}

func (g *pgen) spec() {
	g.id()
	if g.c(3) == 1 {
		g.w(" as ")
		g.id()
	}
}

// genProg writes a program of its own; it may or may not be valid.
func genProg(r *sim.Run) prog {
	g := &pgen{r: r, n: 10 + r.Choose(sim.SW, 120)}
	g.kind = []string{"js", "ts", "tsx", "sloppy"}[r.Choose(sim.SW, 4)]
	g.ts = g.kind == "ts" || g.kind == "tsx"
	g.jsx = g.kind != "ts"
	for i := 1 + r.Choose(sim.SW, 8); i > 0 && g.n > 0; i-- {
		g.stmt(true)
	}
	return prog{kind: g.kind, src: g.b.String()}
}

// genValid writes a program statement by statement and keeps those with which it still parses.
func genValid(r *sim.Run, max int) (prog, bool) {
	g := &pgen{r: r}
	g.kind = []string{"js", "ts", "tsx", "sloppy"}[r.Choose(sim.SW, 4)]
	g.ts = g.kind == "ts" || g.kind == "tsx"
	g.jsx = g.kind != "ts"
	src, kept := "", 0
	for i := 3 + r.Choose(sim.SW, 10); i > 0; i-- {
		g.b.Reset()
		g.n, g.deep, g.loop, g.fn = 4+r.Choose(sim.SW, 30), 0, 0, 0
		g.stmt(true)
		s := src + g.b.String()
		if len(s) > max {
			break
		}
		var p *parsed
		w := alone(refLimit, func() { p = parseOne(s, optsOf(g.kind), false) })
		if w.Outcome == sim.Completed && p.ok() {
			src = s
			kept++
		}
	}
	return prog{kind: g.kind, src: src}, kept > 0
}

// bigProg repeats or nests one construct many times.
func bigProg(r *sim.Run, max int) prog {
	g := &pgen{r: r, kind: []string{"js", "ts", "tsx", "sloppy"}[r.Choose(sim.SW, 4)]}
	g.ts = g.kind == "ts" || g.kind == "tsx"
	k := len(bigShapes)
	if !g.ts {
		k -= 3
	}
	b := bigShapes[r.Choose(sim.SW, k)]
	n := []int{9, 17, 33, 40, 65, 129, 9, 17}[r.Choose(sim.SW, 8)] + r.Choose(sim.SW, 3)
	if b.nest && n > 70 {
		n = 40
	}
	var s strings.Builder
	s.WriteString(b.open)
	for i := 0; i < n; i++ {
		t := strings.ReplaceAll(strings.ReplaceAll(b.item, "#", strconv.Itoa(i)), "@", genNames[i%8])
		if s.Len()+len(t)+len(b.mid)+n*len(b.back) > max {
			n = i
			break
		}
		s.WriteString(t)
	}
	s.WriteString(b.mid)
	for i := n - 1; i >= 0; i-- {
		s.WriteString(strings.ReplaceAll(b.back, "#", strconv.Itoa(i)))
	}
	s.WriteString(b.end)
	return prog{kind: g.kind, src: s.String()}
}

// bigShapes: the last three are TypeScript.
var bigShapes = []struct {
	nest                       bool
	open, item, mid, back, end string
}{
	{false, "x = [", "#, ", "", "", "]\n"},
	{false, "x = {", "k#: @, ", "", "", "}\n"},
	{false, "switch (a) {\n", "case #: @(); break\n", "default: b()\n", "", "}\n"},
	{false, "let y = a", " + @", "", "", "\n"},
	{false, "", "var v# = @ + #\n", "", "", ""},
	{false, "f(", "a#, ", "", "", ")\n"},
	{false, "", "function h#(p) { return p + v0 + h#(@) }\n", "var v0\n", "", ""},
	{false, "", "if (@) { c# } else ", "d()\n", "", ""},
	{false, "class K {\n", "m#() { return this.@ }\n", "", "", "}\n"},
	{false, "x = `", "t${@}", "", "", "`\n"},
	{false, "y = ", "@ ? # : ", "0\n", "", ""},
	{false, "y = ", "@ && ", "0\n", "", ""},
	{false, "a", ".b#(@)", "\n", "", ""},
	{false, "a", "?.b#", "\n", "", ""},
	{false, "", "/* c# */ @; // d#\n", "", "", ""},
	{false, "", "import { i# as j# } from 'm#'\n", "", "", ""},
	{false, "", "export const e# = @\n", "", "", ""},
	{false, "", "try { @() } catch (e) { f(#) } finally { g() }\n", "", "", ""},
	{true, "", "{ let n# = @\n", "a()\n", "}\n", "\n"},
	{true, "", "function o#(@) {\n", "return a\n", "}\n", "\n"},
	{true, "", "L#: while (@) {\n", "if (a) break L0; else continue L1\n", "}\n", "\n"},
	{true, "x = ", "[", "1", "]", "\n"},
	{true, "x = ", "-", "a", "", "\n"},
	{true, "x = ", "@(", "1", ")", "\n"},
	{true, "x = ", "{ p#: ", "1", "}", "\n"},
	{true, "", "if (@) {\n", "c()\n", "} else d(#)\n", "\n"},
	{true, "", "try {\n", "throw a\n", "} catch (e#) { f(e#) }\n", "\n"},
	{false, "", "label#: for (;;) { if (@) break label#; continue }\n", "", "", ""},
	{false, "type T = ", "'s#' | ", "A", "", "\n"},
	{false, "interface I {\n", "p#: @\n", "", "", "}\n"},
	{false, "enum E {\n", "M#,\n", "", "", "}\n"},
}

const signs = "<>(){}[];,.+-*/ =ab1`'\"\n?:!&|#"

// alike gives the program with up to three of its bytes replaced: same length, mostly the same text.
func alike(r *sim.Run, c prog) prog {
	b := []byte(c.src)
	for k := r.Choose(sim.SW, 4); k > 0 && len(b) > 0; k-- {
		i := r.Choose(sim.SW, len(b))
		if r.Choose(sim.SW, 3) > 0 { // most edits hit a sign
			for n := 0; n < len(b) && (b[i] == ' ' || b[i] == '\n' || b[i] >= 'A'); n++ {
				i = (i + 1) % len(b)
			}
		}
		b[i] = signs[r.Choose(sim.SW, len(signs))]
	}
	c.src = string(b)
	return c
}
