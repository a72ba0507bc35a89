package main

// Programs taken from the repository's own tests and fixtures (generated once).
var corpus = []prog{
	{"js", "\na\n  "},
	{"js", "\n a && b\n  "},
	{"js", "\n a && b || c\n  "},
	{"js", "\n  a;\n  if (b) c;\n  else d;\n  e;\n  "},
	{"js", "\n  a;\n  if (b) {\n    c;\n    d;\n  }\n  else e\n  f;\n  "},
	{"js", "\n  a;\n  if (b) {\n    c;\n    d;\n  }\n  else {\n    e;\n  }\n  f;\n  "},
	{"js", "\n  if (a && b) c\n  else d\n  "},
	{"js", "\n  a\n  if (b || c && d) e\n  else f\n  "},
	{"js", "\n  a++\n  "},
	{"js", "\n  let a = 1, c = d\n  "},
	{"js", "\n  for (let b = 1; b < c; b++) {\n    d;\n  }\n  e;\n  "},
	{"js", "\n  for (; b < c; b++) {\n    d;\n  }\n  e;\n  "},
	{"js", "\n  for (; b < c;) {\n    d;\n  }\n  e;\n  "},
	{"js", "\n  for (; b && c;) {\n    d;\n  }\n  e;\n  "},
	{"js", "\n  for (; ;) {\n    d;\n  }\n  e;\n  "},
	{"js", "\n  for (; 1 ;) {\n    d;\n  }\n  e;\n  "},
	{"js", "\n  while(a) b;\n  "},
	{"js", "\n  while(a) {\n    b;\n  }\n  "},
	{"js", "\n  while((a + b) || c) {\n    d;\n  }\n  "},
	{"js", "\n  while(1) {\n    d;\n  }\n  "},
	{"js", "\n  while(a || b && c) {\n    d\n  }\n  "},
	{"js", "\nwhile (a) {\n  continue\n  c\n}\n  "},
	{"js", "\nwhile (1) {\n  continue\n  c\n}\n  "},
	{"js", "\n  (a + b)\n  "},
	{"js", "\n  (a && b)\n  "},
	{"js", "\n  do { a } while(b)\n  "},
	{"js", "\n  do { a } while(b || c)\n  "},
	{"js", "\n  do { a } while(b && c)\n  "},
	{"js", "\n  do {\n    d;\n  } while(1)\n  "},
	{"js", "\ndo {\n  continue\n  c\n} while(a)\n  "},
	{"js", "\ndo {\n  continue\n  c\n} while(1)\n  "},
	{"js", "\n  LabelA: while(a) {\n    continue LabelA\n    d\n  }\n  "},
	{"js", "\n  LabelA: while(a || b && c) {\n    continue LabelA\n    d\n  }\n  "},
	{"js", "\n  LabelA: while(a) {\n    while(b) {\n      continue LabelA\n      c\n    }\n  }\n  "},
	{"js", "\nLabelA: do {\n  a;\n  do {\n    continue LabelA;\n    d;\n  } while (c);\n} while (b);\n  "},
	{"js", "\nfor (let a = 1; a < 10; a++) {\n  continue\n  c\n}\n  "},
	{"js", "\nLabelA: for (let a = 1; 1; a++) {\n  continue LabelA\n  c\n}\n  "},
	{"js", "\nLabelA: for (let a = 1; a < 10; a++) {\n  continue LabelA\n  c\n}\n  "},
	{"js", "\nLabelA: for (let a = 1; a < 10; a++) {\n  for (let b = a; b < 10; b++) {\n    continue LabelA\n    c\n  }\n}\n  "},
	{"js", "\nLabelA: for (let a = 1; a < 10; ) {\n  for (let b = a; b < 10; b++) {\n    continue LabelA\n    c\n  }\n}\n  "},
	{"js", "\nLabelA: for (let a = 1; ; ) {\n  for (let b = a; b < 10; b++) {\n    continue LabelA\n    c\n  }\n}\n  "},
	{"js", "\nfor (a in b) {\n    c\n}\n  "},
	{"js", "\nfor (let a in b) {\n    c\n}\n  "},
	{"js", "\ns\nLabelA: for(a in b) {\n  for(c in d) {\n    if (e && f) {\n      continue LabelA\n    }\n    g\n  }\n  h\n}\n  "},
	{"js", "\nwhile(a) {\n  if (a > 10) {\n    continue;\n    b\n  }\n  a--\n}\n  "},
	{"js", "\nwhile(a) {\n  if (a > 10) break;\n  a--\n}\n  "},
	{"js", "\nfor (; a; ) {\n  if (a > 10) {\n    break;\n    c\n  }\n  a--\n}\n  "},
	{"js", "\n  LabelA: while(a) {\n    for( ; b; ) {\n      break LabelA\n      c\n    }\n  }\n  "},
	{"js", "\n  LabelA: while(a) {\n    for(;b;) {\n      break\n      c\n    }\n  }\n  "},
	{"js", "\n  fn()\n  "},
	{"js", "\n  fn(1, 2, a && b)\n  "},
	{"js", "\n  fn(1, a || b && c, d && e)\n  "},
	{"js", "\n  const foo = null ?? 'default string';\n  "},
	{"js", "\nfunction f() {\n}\n  "},
	{"js", "\nfunction f() {\n  a\n}\n  "},
	{"js", "\nfunction f() {\n  a;\n  return;\n  b\n}\n  "},
	{"js", "\nfunction f() {\n  a;\n  return a ?? b;\n  c\n}\n  "},
	{"js", "\nfunction f() {\n  a;\n  return a && b || c;\n  c\n}\n  "},
	{"js", "\nfunction f(a, b) {}\n  "},
	{"js", "\nfn = function f(a, b) { c }\n  "},
	{"js", "\na = [b, c, d ?? e]\n  "},
	{"js", "\na = { b: 1, c: d }\n  "},
	{"js", "\na = { b: {c: 1} }\n  "},
	{"js", "\na = { b: function (a, b) {} }\n  "},
	{"js", "\na;\n;\n  "},
	{"js", "\na\ndebugger\n  "},
	{"js", "\na = null\nnull\n  "},
	{"js", "\na = true\nfalse\n  "},
	{"js", "\na = 1\n1.1\n  "},
	{"js", "\na = \"str\"\n'str'\n  "},
	{"js", "\na = [1, 2, 3];\n[1, 2, 3]\n  "},
	{"js", "\na = [1, 2, [4, 5, 6]];\n  "},
	{"js", "\n  a = [1, 2, ...d];\n  "},
	{"js", "\na = { b: { c: 1 }, ...d };\n  "},
	{"js", "\na = {b: { c: 1 } };\n({b: { c: 1 } })\n  "},
	{"js", "\na = {b: { c: 1, d: [1, { f: 2}] } };\n  "},
	{"js", "\na = /reg/;\n  "},
	{"js", "\nswitch(a) {\n  case 1: doSth1();\n  case 2: doSth2();\n  case 3: doSth3();\n  default: doSthDefault();\n}\n  "},
	{"js", "\nswitch(a) {\n  case 1: doSth1();\n  case 2: {\n    doSth21();\n    doSth22();\n  }\n  case 3: doSth3();\n  default: doSthDefault();\n}\n  "},
	{"js", "\nswitch(a) {\n  case 1:\n  case 2: {\n    doSth21();\n    doSth22();\n  }\n  case 3: doSth3();\n  default: doSthDefault();\n}\n  "},
	{"js", "\nswitch(a) {\n  default: doSthDefault();\n  case 1: doSth1();\n  case 2: doSth2();\n}\n  "},
	{"js", "\nswitch(a) {\n  case 1: doSth1();\n  default: doSthDefault();\n  case 2: doSth2();\n  case 3: doSth3();\n}\n  "},
	{"js", "\nswitch(a) {\n  case 1:\n  default: doSthDefault();\n  case 2: doSth2();\n  case 3: doSth3();\n}\n  "},
	{"js", "\nswitch(a) {\n  case 1: doSth1(); break;\n  case 2: doSth2();\n  case 3: doSth3();\n}\n  "},
	{"js", "\nswitch(a) {\n  case 1: doSth1(); break;\n  default: doSthDefault();\n  case 2: doSth2();\n  case 3: doSth3();\n}\n  "},
	{"js", "\nswitch(a) {\n  case 1: {\n    doSth1(); break;\n  }\n  default: doSthDefault();\n  case 2: doSth2();\n  case 3: doSth3();\n}\n  "},
	{"js", "\nswitch(a) {\n  case 1: {\n    doSth1();\n  }\n  break;\n  default: doSthDefault();\n  case 2: doSth2();\n  case 3: doSth3();\n}\n  "},
	{"js", "\nswitch(a) {\n  default: doSthDefault(); break;\n  case 2: doSth2();\n  case 3: doSth3();\n}\n  "},
	{"js", "\nswitch(a) {\n  case 1: doSth1();\n  default: doSthDefault(); break;\n  case 2: doSth2();\n  case 3: doSth3();\n}\n  "},
	{"js", "\nfunction f() {\n  switch(a) {\n    case 1: {\n      doSth1(); return;\n    }\n    default: doSthDefault();\n    case 2: doSth2();\n  }\n}\n  "},
	{"js", "\ntry {\n  doSth1();\n  doSth2();\n} catch (error) {\n  log(error);\n}\n  "},
	{"js", "\ntry {\n  if (a) {\n    doSth1();\n  }\n  doSth2();\n} catch (error) {\n  log(error);\n}\n  "},
	{"js", "\ntry {\n  doSth1();\n  doSth2();\n} catch (error) {\n  log(error);\n} finally {\n  fin();\n}\n  "},
	{"js", "\nfunction f() {\n  try {\n    doSth1();\n    return;\n    doSth2();\n  } catch (error) {\n    log(error);\n  }\n  afterFin()\n}\n  "},
	{"js", "\nfunction f() {\n  try {\n    doSth1();\n    return;\n    doSth2();\n  } catch (error) {\n    log(error);\n  } finally {\n    fin()\n  }\n  afterFin()\n}\n  "},
	{"js", "\nfunction f() {\n  try {\n    doSth1();\n    return;\n    doSth2();\n  } catch (error) {\n    log(error);\n  } finally {\n    if (a) {\n      fin1()\n    }\n    fin2()\n  }\n  afterFin()\n}\n  "},
	{"js", "\nfunction f() {\n  try {\n    doSth1();\n    doSth2();\n  } catch (error) {\n    return\n    log(error);\n  }\n  afterFin()\n}\n  "},
	{"js", "\nfunction f() {\n  try {\n    doSth1();\n    doSth2();\n  } catch (error) {\n    return\n    log(error);\n  } finally {\n    fin()\n  }\n  afterFin()\n}\n  "},
	{"js", "\nfunction f() {\n  try {\n    doSth1();\n    doSth2();\n  } catch (error) {\n    return\n    log(error);\n  } finally {\n    fin()\n    return\n  }\n  afterFin()\n}\n  "},
	{"js", "\ntry {\n  doSth1()\n\n  try {\n    doSth2()\n  } catch (error) {\n\n  }\n} catch (error) {\n  log(error)\n}\n  "},
	{"js", "\nfunction f() {\n  try {\n    doSth1()\n  \n    try {\n      doSth2()\n      return\n    } catch (error) {\n  \n    }\n  } catch (error) {\n    log(error)\n  }\n}\n  "},
	{"js", "\nfunction f() {\n  try {\n    doSth1()\n\n    try {\n      doSth2()\n      return\n    } catch (error) {\n\n    } finally {\n      fin1()\n    }\n  } catch (error) {\n    log(error)\n  } finally {\n    fin2()\n  }\n}\n  "},
	{"js", "\nfunction f() {\n  try {\n    doSth1()\n\n    try {\n      doSth2()\n\n      try {\n        doSth3()\n      } catch (error) {\n        log1()\n      } finally {\n        fin1()\n      }\n    } catch (error) {\n      log2()\n    } finally {\n      fin2()\n    }\n  } catch (error) {\n    log3(error)\n  } finally {\n    fin3()\n  }\n}\n  "},
	{"js", "\nfunction f() {\n  try {\n    doSth1()\n\n    try {\n      doSth2()\n\n      try {\n        doSth3()\n        return\n      } catch (error) {\n  \n      } finally {\n        fin1()\n      }\n    } catch (error) {\n\n    } finally {\n      fin2()\n    }\n  } catch (error) {\n    log(error)\n  } finally {\n    fin3()\n  }\n}\n  "},
	{"js", "\ntry {\n  throw a\n  a\n} catch (error) {\n  log(error)\n}\n  "},
	{"js", "\ntry {\n  throw a && b || c\n  a\n} catch (error) {\n  log(error)\n}\n  "},
	{"js", "\ntry {\n  try {\n    throw a\n  } catch (error) {\n    log1(error)\n  }\n} catch (error) {\n  log2(error)\n}\n  "},
	{"js", "\nfunction f() {\n  try {\n    if (a) {\n      return a;\n    } else {\n      throw b;\n    }\n  } catch (err) {\n    // do nothing.\n  }\n\n  foo();\n}\n  "},
	{"js", "\ntry {\n  try {\n    throw 1\n    a\n  } catch (error) {\n    throw error\n    b\n  }\n  c\n} catch (error) {\n  log2(error)\n}\n  "},
	{"js", "\nthrow 1\na\n  "},
	{"js", "\n  new fn()\n  "},
	{"js", "\n  new fn(1, 2, a && b)\n  "},
	{"js", "\n  new fn(1, a || b && c, d && e)\n  "},
	{"js", "\n  a.b\n  "},
	{"js", "\n  a.b.c\n  "},
	{"js", "\n  (a && b).c\n  "},
	{"js", "\n  a[b]\n  "},
	{"js", "\n  a[b && c]\n  "},
	{"js", "\n  a[b && c][e || f]\n  "},
	{"js", "\n  a.b[c && d].e\n  "},
	{"js", "\n  a, b, c\n  "},
	{"js", "\n  a, b && c || d, e || f\n  "},
	{"js", "\n  (a, b && c || d, e || f)\n  "},
	{"js", "\n  function f() {\n    this\n  }\n  "},
	{"js", "\n  !a\n  "},
	{"js", "\n  !(a || b && c)\n  "},
	{"js", "\n  a ? b : c\n  "},
	{"js", "\n  a && b ? c : d\n  "},
	{"js", "\n  a || b ? c : d\n  "},
	{"js", "\n  a || b && c ? d : e\n  "},
	{"js", "\n  a && b || c ? d : e\n  "},
	{"js", "\n  a ? b ? c : d : c\n  "},
	{"js", "\n  a ? b : c ? d : e\n  "},
	{"js", "\n  a = 1\n  "},
	{"js", "\n  a = b && c\n  "},
	{"js", "\n  import(\"a\")\n  "},
	{"js", "\n  await import(\"a\")\n  "},
	{"js", "\n  with (a) {\n    b\n  }\n  "},
	{"js", "\n  with (a || b) {\n    c\n  }\n  "},
	{"js", "\n  import \"a\";\n  "},
	{"js", "\n  import * as a from \"a\";\n  "},
	{"js", "\n  import a from \"a\";\n  "},
	{"js", "\n  import a, * as b from \"a\";\n  "},
	{"js", "\n  import { a } from \"a\";\n  "},
	{"js", "\n  import a, { b } from \"a\";\n  "},
	{"js", "\n  import { a as b } from \"a\";\n  "},
	{"js", "\n  export let a, b, c;\n  "},
	{"js", "\n  export function f() {}\n  "},
	{"js", "\n  export class A {}\n  "},
	{"js", "\n  let a, b, c;\n  export { a, b, c }\n  "},
	{"js", "\n  let a, b, c;\n  export { a as aa, b as bb, c as cc }\n  "},
	{"js", "\n  export const [ a ] = arr\n  "},
	{"js", "\n  export const { a, b: c } = obj\n  "},
	{"js", "\n  export default a\n  "},
	{"js", "\n  export default function f() {}\n  "},
	{"js", "\n  let a;\n  export { a as default }\n  "},
	{"js", "\n  export * from \"a\"\n  "},
	{"js", "\n  export * as a from \"a\"\n  "},
	{"js", "\n  export { a, b, c as cc, default, default as d } from \"a\"\n  "},
	{"js", "\n  let [a, b] = [1, 2]\n  "},
	{"js", "\n  let a, b;\n  [a, b] = [1, 2]\n  "},
	{"js", "\n  let [a = 3, b = 4] = [1, 2]\n  "},
	{"js", "\n  let [a = e && f, [ b, c = 2 ]] = arr\n  "},
	{"js", "\n  let [a, b, ...rest] = arr\n  "},
	{"js", "\n  [a,,b] = [1, 2]\n  "},
	{"js", "\n  [,,] = [1, 2]\n  "},
	{"js", "\n  let {a, b} = { a: 1, b: 2 }\n  "},
	{"js", "\n  let a, b;\n  ({ a, b } = { a: 1, b: 2 })\n  "},
	{"js", "\n  let a, b;\n  ({ a = 3, b = 4 } = { a: 1, b: 2 })\n  "},
	{"js", "\n  let { a: b } = obj\n  "},
	{"js", "\n  let { a: { b } } = obj\n  "},
	{"js", "\n  let key = \"a\"\n  let { [key]: foo } = obj\n  "},
	{"js", "\n  let { a, b, ...rest } = obj\n  "},
	{"js", "\n  let f = () => {}\n  "},
	{"js", "\n  let f = () => b\n  "},
	{"js", "\n  let f = () => a && b || c\n  "},
	{"js", "\n  let f = (a, b) => {\n    c\n  }\n  "},
	{"js", "\n  let f = (a, b) => {\n    return\n    c\n  }\n  "},
	{"js", "\n  function* f() {\n    yield 1\n  }\n  "},
	{"js", "\n  function* f() {\n    yield* ff()\n  }\n  "},
	{"js", "\n  obj?.prop\n  "},
	{"js", "\n  (a || b)?.prop\n  "},
	{"js", "\n  obj.val?.prop\n  "},
	{"js", "\n  obj.func?.()\n  "},
	{"js", "\n  obj.func?.(args)\n  "},
	{"js", "\n  obj.arr?.[index]\n  "},
	{"js", "\n  a?.b?.c()\n  "},
	{"js", "`string text`"},
	{"js", "`string text ${a && b} string ${c} text`"},
	{"js", "`string text ${a} string ${b} text ${c && d}`"},
	{"js", "tagFn`string text ${a} string text`"},
	{"js", "\n  function f() {\n    new.target\n  }\n  "},
	{"js", "\n  let a = <div></div>\n  "},
	{"js", "\n  let a = <div/>\n  "},
	{"js", "\n  let a = <div>a {b && c} d</div>\n  "},
	{"js", "\n  let a = <div>{/* empty */}</div>\n  "},
	{"js", "\n  let a = <A.b/>\n  "},
	{"js", "\n  let a = <div:a>text</div:a>\n  "},
	{"js", "\n  let a = <div>\n    {...e}\n  </div>\n  "},
	{"js", "\n  let a = <div attr=\"str\">text</div>\n  "},
	{"js", "\n  let a = <div attr={1}>text</div>\n  "},
	{"js", "\n  let a = <div attr={a && b}>text</div>\n  "},
	{"js", "\n  let a = <div attr>text</div>\n  "},
	{"js", "\n  let a = <div {...props}>text</div>\n  "},
	{"js", "\n  let a = <div attr0 attr1={true} attr2=\"a\" {...b}>text</div>\n  "},
	{"js", "\nclass A {}\n  "},
	{"js", "\nclass A {\n  a;\n  b = 1\n  c = a && b\n  d = function f() {}\n  e = () => {}\n}\n  "},
	{"js", "\nclass A {\n  a = function f() {\n    b\n  }\n}\n  "},
	{"js", "\nclass A {\n  a = () => {\n    b\n  }\n}\n  "},
	{"js", "\nclass A {\n  a = () => a?.b()\n}\n  "},
	{"js", "\n  let a = class A {}\n  "},
	{"js", "\n  class A {\n    f () {}\n  }\n  "},
	{"js", "\n  class A {\n    f () {\n      a\n    }\n  }\n  "},
	{"js", "\n  class A extends B {\n    constructor () {\n      super()\n    }\n  }\n  "},
	{"js", "\n  class A {\n    f () {\n      super.a()\n    }\n  }\n  "},
	{"js", "\n  class A {\n    static {\n      a\n    }\n  }\n  "},
	{"js", "\nconst a = <></>;\n  "},
	{"js", "\n  if (a) {\n    b\n  } else if (c) {\n    d\n  } else {\n    e\n  }\n"},
	{"js", "\n  if (a) {\n    b\n  } else if (c) {\n    d\n  } else {\n    e\n  }\n\n  f\n"},
	{"js", "\n  a && b\n"},
	{"js", "\n  a && require(\"a.js\")\n"},
	{"js", "\n  if (a) {\n    a && require(\"a.js\")\n  }\n"},
	{"js", "\n  if (a) {\n   if (b) {\n     a && require(\"a.js\")\n   }\n  }\n"},
	{"js", "\n  if (a) {\n   require(\"a1.js\")\n   if (b) {\n     a && require(\"a2.js\")\n     require(\"a3.js\")\n   }\n   require(\"a4.js\")\n  }\n"},
	{"js", "\n  if (a) {\n   require(\"a1.js\")\n   if (b) {\n     a && require(\"a2.js\")\n     require(\"a3.js\")\n   }\n  }\n  require(\"a4.js\")\n"},
	{"js", "\n  if (process.env.NODE_ENV === 'production') {\n    module.exports = require('./cjs/react.production.min.js');\n  } else {\n    module.exports = require('./cjs/react.development.js');\n  }\n"},
	{"js", "\n  if (process.env.NODE_ENV !== \"production\") {\n    (function() {\n  'use strict';\n\n  var React = require('react');\n  var _assign = require('object-assign');\n  var Scheduler = require('scheduler');\n  var checkPropTypes = require('prop-types/checkPropTypes');\n  var tracing = require('scheduler/tracing');\n    })()\n  }\n"},
	{"js", "\nconst imgSuffix = (picUrl) => ImageSuffix.directSuffix(picUrl, { paramWidth: 50 })\nfunction test() {\n  imgSuffix()\n}\n"},
	{"js", "\nconst fn0 = () => {}\nconst fn1 = () => fn0()\nconst fn2 = () => fn1()\n"},
	{"js", "\nfunction fn0() {}\nconst fn1 = () => fn0()\nconst fn2 = () => fn1()\n"},
	{"js", "\nimport ImageSuffix from '@music/mobile-image'\n\nfunction fn0() { ImageSuffix() }\nconst fn1 = () => fn0()\nconst fn2 = () => fn1()\n"},
	{"js", "\nimport ImageSuffix from '@music/mobile-image'\n\nfunction fn0() { ImageSuffix() }\nconst fn1 = () => () => fn0();\nconst fn2 = () => fn1()\n"},
	{"js", "async function* foo() { }"},
	{"js", "async function wrap() {\nasync function await() { }\n}"},
	{"js", "async function foo(await) { }"},
	{"js", "for ( ; false; ) async function* g() {}"},
	{"js", "async function foo() { return {await} }"},
	{"js", "(async\nfunction foo() { })"},
	{"js", "(async function* foo() { })"},
	{"js", "(async function await() { })"},
	{"js", "(async function foo(await) { })"},
	{"js", "(async function foo() { return {await} })"},
	{"js", "async ({a = b})"},
	{"js", "async\n() => a"},
	{"js", "async a\n=> a"},
	{"js", "async ()\n=> a"},
	{"js", "async await => 1"},
	{"js", "async (await) => 1"},
	{"js", "async (...await) => 1"},
	{"js", "async ({await}) => 1"},
	{"js", "async ({a: await}) => 1"},
	{"js", "async ([await]) => 1"},
	{"js", "async ([...await]) => 1"},
	{"js", "async (b = {await}) => 1"},
	{"js", "async (b = {a: await}) => 1"},
	{"js", "async (b = [await]) => 1"},
	{"js", "async (b = [...await]) => 1"},
	{"js", "async (b = class await {}) => 1"},
	{"js", "async (b = (await) => {}) => 1"},
	{"js", "async (await, b = async()) => 2"},
	{"js", "async (await, b = async () => {}) => 1"},
	{"js", "({async\nfoo() { }})"},
	{"js", "({async get foo() { }})"},
	{"js", "({async set foo(value) { }})"},
	{"js", "({async* foo() { }})"},
	{"js", "({async foo() { var await }})"},
	{"js", "({async foo(await) { }})"},
	{"js", "({async foo() { return {await} }})"},
	{"js", "({async foo: 1})"},
	{"js", "class A {async constructor() { }}"},
	{"js", "class A {async get foo() { }}"},
	{"js", "class A {async set foo(value) { }}"},
	{"js", "class A {async* foo() { }}"},
	{"js", "class A {static async get foo() { }}"},
	{"js", "class A {static async set foo(value) { }}"},
	{"js", "class A {static async* foo() { }}"},
	{"js", "class A {async foo() { var await }}"},
	{"js", "class A {async foo(await) { }}"},
	{"js", "class A {async foo() { return {await} }}"},
	{"js", "await"},
	{"js", "await a"},
	{"js", "async function foo() { await }"},
	{"js", "(async function foo() { await })"},
	{"js", "async () => await"},
	{"js", "({async foo() { await }})"},
	{"js", "(class {async foo() { await }})"},
	{"js", "async function foo(a = await b) {}"},
	{"js", "(async function foo(a = await b) {})"},
	{"js", "async (a = await b) => {}"},
	{"js", "async function wrapper() {\nasync (a = await b) => {}\n}"},
	{"js", "({async foo(a = await b) {}})"},
	{"js", "(class {async foo(a = await b) {}})"},
	{"js", "async function foo(a = class extends (await b) {}) {}"},
	{"js", "async function wrap() {\n(a = await b) => a\n}"},
	{"js", "async function wrap() {\n({a = await b} = obj) => a\n}"},
	{"js", "function* wrap() {\nasync(a = yield b) => a\n}"},
	{"js", "if (x) async function f() {}"},
	{"js", "(async)(a) => 12"},
	{"js", "f = async ((x)) => x"},
	{"js", "abc: async function a() {}"},
	{"js", "(async() => { await 4 ** 2 })()"},
	{"js", "async() => (await 1 ** 3)"},
	{"js", "async() => await 5 ** 6"},
	{"js", "async() => await (5) ** 6"},
	{"js", "4 + async() => 2"},
	{"js", "async function\xf0\x9d\x90\xac f() {}"},
	{"js", "console.log( -2 ** 4 )"},
	{"js", "function foo() { }"},
	{"js", "async function foo() { }"},
	{"js", "async\nfunction foo() { }"},
	{"js", "export async function foo() { }"},
	{"js", "export default async function() { }"},
	{"js", "async function await() { }"},
	{"js", "(function foo() { })"},
	{"js", "(async function foo() { })"},
	{"js", "export default (async function() { })"},
	{"js", "a => a"},
	{"js", "(a) => a"},
	{"js", "async a => a"},
	{"js", "async () => a"},
	{"js", "async (a, b) => a"},
	{"js", "async ({a = b}) => a"},
	{"js", "async ({a: b = c}) => a"},
	{"js", "async ({a: b = c})"},
	{"js", "async\na => a"},
	{"js", "async (await)"},
	{"js", "async ({await: a}) => 1"},
	{"js", "async (b = {await: a}) => 1"},
	{"js", "async (b = function* await() {}) => 1"},
	{"js", "async yield => 1"},
	{"js", "({foo() { }})"},
	{"js", "({async foo() { }})"},
	{"js", "({async() { }})"},
	{"js", "({async await() { }})"},
	{"js", "async function wrap() {\n({async await() { }})\n}"},
	{"js", "class A {foo() { }}"},
	{"js", "class A {async foo() { }}"},
	{"js", "class A {static async foo() { }}"},
	{"js", "class A {async() { }}"},
	{"js", "class A {static async() { }}"},
	{"js", "class A {*async() { }}"},
	{"js", "class A {static* async() { }}"},
	{"js", "class A {async await() { }}"},
	{"js", "class A {static async await() { }}"},
	{"js", "async function wrap() {\nclass A {async await() { }}\n}"},
	{"js", "async function foo(a, b) { await a }"},
	{"js", "(async function foo(a) { await a })"},
	{"js", "(async (a) => await a)"},
	{"js", "({async foo(a) { await a }})"},
	{"js", "async function foo(a, b) { await a + await b }"},
	{"js", "function foo() { await + 1 }"},
	{"js", "async function foo() { await + 1 }"},
	{"js", "async function foo(a = async function foo() { await b }) {}"},
	{"js", "async function foo(a = async () => await b) {}"},
	{"js", "async function foo(a = {async bar() { await b }}) {}"},
	{"js", "async function foo(a = class {async bar() { await b }}) {}"},
	{"js", "async function wrap() {\n(a = await b)\n}"},
	{"js", "async function wrap() {\n({a = await b} = obj)\n}"},
	{"js", "async function f() { for await (x of xs); }"},
	{"js", "f = ({ w = counter(), x = counter(), y = counter(), z = counter() } = { w: null, x: 0, y: false, z: '' }) => {}"},
	{"js", "({ async: true })"},
	{"js", "({async})"},
	{"js", "({async, foo})"},
	{"js", "({async = 0} = {})"},
	{"js", "({async \"foo\"(){}})"},
	{"js", "({async 'foo'(){}})"},
	{"js", "({async 100(){}})"},
	{"js", "({async [foo](){}})"},
	{"js", "({ async delete() {} })"},
	{"js", "(async() => { await (4 ** 2) })()"},
	{"js", "async() => (await (1 ** 3))"},
	{"js", "async() => await (5 ** 6)"},
	{"js", "async* ({a: b = c})"},
	{"js", "await import('a')"},
	{"js", "for await (x of xs);"},
	{"js", "function f() { for await (x of xs); }"},
	{"js", "f = function() { for await (x of xs); }"},
	{"js", "f = () => { for await (x of xs); }"},
	{"js", "async function f() { () => { for await (x of xs); } }"},
	{"js", "async function f() { for await (x in xs); }"},
	{"js", "async function f() { for await (x;;); }"},
	{"js", "async function f() { for await (let x = 0;;); }"},
	{"js", "async function* f() { () => await a; }"},
	{"js", "async function* f() { () => yield a; }"},
	{"js", "async function* f() { await a; yield b; }"},
	{"js", "f = async function*() { () => await a; }"},
	{"js", "f = async function*() { () => yield a; }"},
	{"js", "obj = { async\n* f() {} }"},
	{"js", "obj = { *async f() {}"},
	{"js", "obj = { *async* f() {}"},
	{"js", "obj = { async* f() { () => await a; } }"},
	{"js", "obj = { async* f() { () => yield a; } }"},
	{"js", "class A { *async f() {} }"},
	{"js", "class A { *async* f() {} }"},
	{"js", "class A { async* f() { () => await a; } }"},
	{"js", "class A { async* f() { () => yield a; } }"},
	{"js", "f = async function*() { await a; yield b; }"},
	{"js", "obj = { async* f() { await a; yield b; } }"},
	{"js", "class A { async* f() { await a; yield b; } }"},
	{"js", "({ \\u0061sync *method(){} })"},
	{"js", "void \\u0061sync function* f(){};"},
	{"js", "({async\n    foo() { }})"},
	{"js", "for (async of [1]) {}"},
	{"js", "async function f() { for await (;;); }"},
	{"js", "async function f() { for await (var x of xs); }"},
	{"js", "async function f() { for await (let x of xs); }"},
	{"js", "async function f() { for\nawait (x of xs); }"},
	{"js", "f = async function() { for await (x of xs); }"},
	{"js", "f = async() => { for await (x of xs); }"},
	{"js", "obj = { async f() { for await (x of xs); } }"},
	{"js", "class A { async f() { for await (x of xs); } }"},
	{"js", "for (x of xs);"},
	{"js", "for (x in xs);"},
	{"js", "class A { static async* f() { await a; yield b; } }"},
	{"js", "async function* x() {}"},
	{"js", "ref = async function*() {}"},
	{"js", "(async function*() {})"},
	{"js", "var gen = { async *method() {} }"},
	{"js", "export default async function*() {}"},
	{"js", "var C = class { async *method() {} }"},
	{"js", "({ async *method(){} })"},
	{"js", "({async: true})"},
	{"js", "async () => { for await (async of []); }"},
	{"js", "let a = async a => {}"},
	{"js", "await 1"},
	{"js", "function foo() {return await 1}"},
	{"js", "let i = 02n"},
	{"js", "i = 02n"},
	{"js", "((i = 02n) => {})"},
	{"js", "for (let i = 0n; i < 02n;++i) {}"},
	{"js", "i + 02n"},
	{"js", "let i = 2e2n"},
	{"js", "i = 2e2n"},
	{"js", "((i = 2e2n) => {})"},
	{"js", "for (let i = 0n; i < 2e2n;++i) {}"},
	{"js", "i + 2e2n"},
	{"js", "let i = 2.4n"},
	{"js", "i = 2.4n"},
	{"js", "((i = 2.4n) => {})"},
	{"js", "for (let i = 0n; i < 2.4n;++i) {}"},
	{"js", "i + 2.4n"},
	{"js", "let i = .4n"},
	{"js", "i = .4n"},
	{"js", "((i = .4n) => {})"},
	{"js", "for (let i = 0n; i < .4n;++i) {}"},
	{"js", "i + .4n"},
	{"js", "let i = 0o2n"},
	{"js", "let i = 0b01n"},
	{"js", "let i = 0x01n"},
	{"js", "let i = 0n"},
	{"js", "i = 0n"},
	{"js", "((i = 0n) => {})"},
	{"js", "for (let i = 0n; i < 0n;++i) {}"},
	{"js", "i + 0n"},
	{"js", "let i = 2n"},
	{"js", "i = 2n"},
	{"js", "((i = 2n) => {})"},
	{"js", "for (let i = 0n; i < 2n;++i) {}"},
	{"js", "i + 2n"},
	{"js", "let i = 0x2n"},
	{"js", "i = 0x2n"},
	{"js", "((i = 0x2n) => {})"},
	{"js", "for (let i = 0n; i < 0x2n;++i) {}"},
	{"js", "i + 0x2n"},
	{"js", "i = 0o2n"},
	{"js", "((i = 0o2n) => {})"},
	{"js", "for (let i = 0n; i < 0o2n;++i) {}"},
	{"js", "i + 0o2n"},
	{"js", "let i = 0b10n"},
	{"js", "i = 0b10n"},
	{"js", "((i = 0b10n) => {})"},
	{"js", "for (let i = 0n; i < 0b10n;++i) {}"},
	{"js", "i + 0b10n"},
	{"js", "let i = -0xbf2ed51ff75d380fd3be813ec6185780n"},
	{"js", "i = -0xbf2ed51ff75d380fd3be813ec6185780n"},
	{"js", "((i = -0xbf2ed51ff75d380fd3be813ec6185780n) => {})"},
	{"js", "for (let i = 0n; i < -0xbf2ed51ff75d380fd3be813ec6185780n;++i) {}"},
	{"js", "i + -0xbf2ed51ff75d380fd3be813ec6185780n"},
	{"js", "async function f() { class C { aaa = await } }"},
	{"js", "function* f() { class C { aaa = yield } }"},
	{"js", "class C { aaa }"},
	{"js", "class C { [super.bbb] = 0 }"},
	{"js", "class C { aaa, bbb }"},
	{"js", "class C { get aaa }"},
	{"js", "class C { set aaa }"},
	{"js", "class C { *aaa }"},
	{"js", "class C { async aaa }"},
	{"js", "class C { async*aaa }"},
	{"js", "class C { aaa bbb }"},
	{"js", "class C { aaa = 0, 1 }"},
	{"js", "class C { constructor }"},
	{"js", "class C { static constructor }"},
	{"js", "class C { static prototype }"},
	{"js", "class C { aaa = arguments }"},
	{"js", "class C { aaa = { arguments } }"},
	{"js", "class C { aaa = { arguments: { arguments } } }"},
	{"js", "class C { #aaa }"},
	{"js", "class C { # aaa }"},
	{"js", "class C { #+aaa }"},
	{"js", "class C { #\xf0\x9f\x91\x8d }"},
	{"js", "class C { #constructor }"},
	{"js", "class C { static #constructor }"},
	{"js", "class C { #a; #a }"},
	{"js", "class C { #a; static #a }"},
	{"js", "class C { static #a; #a }"},
	{"js", "class C { #a(){} #a }"},
	{"js", "class C { #a; #a(){} }"},
	{"js", "class C { #a(){} #a(){} }"},
	{"js", "class C { #a(){} static #a(){} }"},
	{"js", "class C { static #a(){} #a(){} }"},
	{"js", "class C { get #a(){} static set #a(x){} }"},
	{"js", "class C { set #a(x){} static get #a(){} }"},
	{"js", "class C { static get #a(){} set #a(x){} }"},
	{"js", "class C { static set #a(x){} get #a(){} }"},
	{"js", "class C { #a; get #a(){} }"},
	{"js", "class C { #a; set #a(x){} }"},
	{"js", "class C { #a(){}; get #a(){} }"},
	{"js", "class C { get #a(){} #a }"},
	{"js", "class C { set #a(x){} #a }"},
	{"js", "class C { get #a(){} #a(){} }"},
	{"js", "class C { set #a(x){} #a(){} }"},
	{"js", "class C { #a(){}; set #a(x){} }"},
	{"js", "class C extends Base { f() { return super.#aaa } }"},
	{"js", "class C { #aaa; f() { delete this.#aaa } }"},
	{"js", "class C { #aaa; f() { delete obj?.#aaa } }"},
	{"js", "class C { #aaa; f() { delete obj?.p.#aaa } }"},
	{"js", "const obj = #aaa"},
	{"js", "const obj = { #aaa }"},
	{"js", "class C { #aaa; f() { #aaa } }"},
	{"js", "class C { #aaa; f() { return { #aaa: 1 } } }"},
	{"js", "class C { #a; a = this.#b; }"},
	{"js", "class C { a = this.#b; #a; }"},
	{"js", "class C { #a; [this.#b]; }"},
	{"js", "class C { [this.#b]; #a; }"},
	{"js", "class C { #a; f(){ this.#b } }"},
	{"js", "class C { f(){ this.#b } #a; }"},
	{"js", "obj.#aaa"},
	{"js", "function F() { obj.#aaa }"},
	{"js", "class Outer { Inner = class { f(obj) { obj.#nonexist } #inner; }; #outer; }"},
	{"js", "class C {\n    static #z\n    static {\n      this.#y = {}\n    }\n  }"},
	{"js", "let zRead\n  class C {\n    static #z\n    static {\n      zRead = () => this.#y\n    }\n  }"},
	{"js", "class C { 'constructor' }"},
	{"js", "class A { [#c]() {} }"},
	{"js", "class C { aaa; }"},
	{"js", "class C { \\u0041 }"},
	{"js", "class C { '0' }"},
	{"js", "class C { 1e2 }"},
	{"js", "class C { [0] }"},
	{"js", "class C { aaa = bbb }"},
	{"js", "class C { aaa = bbb; }"},
	{"js", "class C { aaa; bbb }"},
	{"js", "class C { aaa\nbbb }"},
	{"js", "class C { aaa\n bbb }"},
	{"js", "class C { aaa=()=>0 }"},
	{"js", "class C { static aaa }"},
	{"js", "class C { static \\u0041 }"},
	{"js", "class C { static '0' }"},
	{"js", "class C { static 1e2 }"},
	{"js", "class C { static [0] }"},
	{"js", "class C { static aaa = bbb }"},
	{"js", "class C { aaa; aaa }"},
	{"js", "class C { aaa=0\n['bbb'] }"},
	{"js", "class C { get; set; static; async }"},
	{"js", "class C { static\nget\nfoo(){} }"},
	{"js", "class C { async\n get(){} }"},
	{"js", "class C { get\n *foo(){} }"},
	{"js", "class C { set\n *foo(){} }"},
	{"js", "class C { a = new.target }"},
	{"js", "class C { aaa = super.bbb }"},
	{"js", "class C { aaa = () => super.bbb }"},
	{"js", "class C { aaa = () => () => super.bbb }"},
	{"js", "class C { prototype }"},
	{"js", "class C { aaa = { arguments: 1 } }"},
	{"js", "class C { aaa = function(){ arguments } }"},
	{"js", "class C { [arguments] = 0 }"},
	{"js", "class C { #\\u0041 }"},
	{"js", "class C { static #aaa }"},
	{"js", "class C { static\n#\\u0041 }"},
	{"js", "class C { #aaa; }"},
	{"js", "class C { #aaa; #bbb }"},
	{"js", "class C { #aaa\n#bbb }"},
	{"js", "class C { #aaa\n #bbb }"},
	{"js", "class C { #aaa = 0 }"},
	{"js", "class C { #\xf0\xa9\xb8\xbd }"},
	{"js", "class C { a; #a }"},
	{"js", "class C { #a; a }"},
	{"js", "class C { #aaa(){} }"},
	{"js", "class C { *#aaa(){} }"},
	{"js", "class C { async#aaa(){} }"},
	{"js", "class C { async*#aaa(){} }"},
	{"js", "class C { static#aaa(){} }"},
	{"js", "class C { static*#aaa(){} }"},
	{"js", "class C { static async#aaa(){} }"},
	{"js", "class C { static async*#aaa(){} }"},
	{"js", "class C { static\n*\n#aaa(){} }"},
	{"js", "class C { static\nasync#aaa(){} }"},
	{"js", "class C { static\nasync*\n#aaa(){} }"},
	{"js", "class C { static\nasync\n#aaa(){} }"},
	{"js", "class C { static\nasync\n*\n#aaa(){} }"},
	{"js", "class C { static\n async\n #aaa(){} }"},
	{"js", "class C { static\n async\n *\n #aaa(){} }"},
	{"js", "class C { get #aaa(){} }"},
	{"js", "class C { set #aaa(x){} }"},
	{"js", "class C { static get #aaa(){} }"},
	{"js", "class C { static set #aaa(x){} }"},
	{"js", "class C { static\nget\n#aaa(){} }"},
	{"js", "class C { get; #aaa(){} }"},
	{"js", "class C { get #a(){} set #a(x){} }"},
	{"js", "class C { static get #a(){} static set #a(x){} }"},
	{"js", "class C { #aaa; f() { this.#aaa } }"},
	{"js", "class C { #aaa; f(obj) { obj.#aaa } }"},
	{"js", "class C { #aaa; f(obj) { obj?.#aaa } }"},
	{"js", "class C { #aaa; f(f) { f()?.#aaa } }"},
	{"js", "class C { #aaa; f() { delete this.#aaa.foo } }"},
	{"js", "class C { #aaa; f() { delete this.#aaa?.foo } }"},
	{"js", "class C { #a; a = this.#a; }"},
	{"js", "class C { a = this.#a; #a; }"},
	{"js", "class C { #a; [this.#a]; }"},
	{"js", "class C { [this.#a]; #a; }"},
	{"js", "class C { #a; f(){ this.#a } }"},
	{"js", "class C { f(){ this.#a } #a; }"},
	{"js", "class Outer { #outer; Inner = class { #inner; f(obj) { obj.#outer + this.#inner } }; }"},
	{"js", "class Outer { Inner = class { f(obj) { obj.#outer + this.#inner } #inner; }; #outer; }"},
	{"js", "class C { static delete() {} }"},
	{"js", "class C {\n  static x\n  static y\n  static {\n    try {\n      const obj = doSomethingWith(this.x)\n      this.y = obj.y\n      this.z = obj.z\n    }\n    catch {\n      this.y = 0\n      this.z = 0\n    }\n  }\n}"},
	{"js", "class C {\n  static y\n  static #z\n  static {\n    const obj = {}\n    this.y = obj.y\n    this.#z = obj.z\n  }\n}"},
	{"js", "let zRead\nclass C {\n  static #z\n  static {\n    zRead = () => this.#z\n  }\n}"},
	{"js", "let zRead\nclass C {\n  static #z\n  static {\n    zRead = (obj) => obj.#z\n  }\n}\nzRead(new C())"},
	{"js", "class C { async\nget(){} }"},
	{"js", "new Object"},
	{"js", "this\n"},
	{"js", "null\n"},
	{"js", "\n    42\n\n"},
	{"js", "/foobar/"},
	{"js", "/[a-z]/g"},
	{"js", "(1 + 2 ) * 3"},
	{"js", "(x = 23)"},
	{"js", "x = []"},
	{"js", "x = [ 42 ]"},
	{"js", "x = [ 42, ]"},
	{"js", "x = [ ,, 42 ]"},
	{"js", "x = [ 1, 2, 3, ]"},
	{"js", "x = [ 1, 2,, 3, ]"},
	{"js", "\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e = []"},
	{"js", "T\xe2\x80\xbf = []"},
	{"js", "T\xe2\x80\x8c = []"},
	{"js", "\xe2\x85\xa3\xe2\x85\xa1 = []"},
	{"js", "\xe2\x85\xa3\xe2\x85\xa1\xe2\x80\x8a=\xe2\x80\x89[]"},
	{"js", "x = {}"},
	{"js", "x = { }"},
	{"js", "x = { if: 42 }"},
	{"js", "x = { true: 42 }"},
	{"js", "x = { false: 42 }"},
	{"js", "x = { null: 42 }"},
	{"js", "x = { \"answer\": 42 }"},
	{"js", "x = { x: 1, x: 2 }"},
	{"js", "x = { get width() { return m_width } }"},
	{"js", "x = { get undef() {} }"},
	{"js", "x = { get if() {} }"},
	{"js", "x = { get true() {} }"},
	{"js", "x = { get false() {} }"},
	{"js", "x = { get null() {} }"},
	{"js", "x = { get \"undef\"() {} }"},
	{"js", "x = { get 10() {} }"},
	{"js", "x = { set width(w) { m_width = w } }"},
	{"js", "x = { set if(w) { m_if = w } }"},
	{"js", "x = { set true(w) { m_true = w } }"},
	{"js", "x = { set false(w) { m_false = w } }"},
	{"js", "x = { set null(w) { m_null = w } }"},
	{"js", "x = { set \"null\"(w) { m_null = w } }"},
	{"js", "x = { set 10(w) { m_null = w } }"},
	{"js", "x = { get: 42 }"},
	{"js", "x = { set: 43 }"},
	{"js", "/* block comment */ 42"},
	{"js", "42 /*The*/ /*Answer*/"},
	{"js", "/* multiline\ncomment\nshould\nbe\nignored */ 42"},
	{"js", "/*a\x0d\nb*/ 42"},
	{"js", "/*a\x0db*/ 42"},
	{"js", "/*a\nb*/ 42"},
	{"js", "/*a\nc*/ 42"},
	{"js", "// line comment\n42"},
	{"js", "42 // line comment"},
	{"js", "// Hello, world!\n42"},
	{"js", "// Hello, world!\n"},
	{"js", "//\n42"},
	{"js", "//"},
	{"js", "// "},
	{"js", "/**/42"},
	{"js", "// Hello, world!\n\n//   Another hello\n42"},
	{"js", "if (x) { // Some comment\ndoThat(); }"},
	{"js", "switch (answer) { case 42: /* perfect */ bingo() }"},
	{"js", "0"},
	{"js", "3"},
	{"js", "5"},
	{"js", "42"},
	{"js", ".14"},
	{"js", "3.14159"},
	{"js", "6.02214179e+23"},
	{"js", "1.492417830e-10"},
	{"js", "0x0"},
	{"js", "0e+100"},
	{"js", "0xabc"},
	{"js", "0xdef"},
	{"js", "0X1A"},
	{"js", "0x10"},
	{"js", "0x100"},
	{"js", "0X04"},
	{"js", "02"},
	{"js", "012"},
	{"js", "0012"},
	{"js", "\"Hello\""},
	{"js", "\"\\n\\r\\t\\v\\b\\f\\\\\\'\\\"\\0\""},
	{"js", "\"\\u0061\""},
	{"js", "\"\\x61\""},
	{"js", "\"Hello\\nworld\""},
	{"js", "\"Hello\\\nworld\""},
	{"js", "\"Hello\\\xe2\x80\xa8world\""},
	{"js", "\"Hello\\\xe2\x80\xa9world\""},
	{"js", "\"Hello\\02World\""},
	{"js", "\"Hello\\012World\""},
	{"js", "\"Hello\\122World\""},
	{"js", "\"Hello\\0122World\""},
	{"js", "\"Hello\\312World\""},
	{"js", "\"Hello\\412World\""},
	{"js", "\"Hello\\812World\""},
	{"js", "\"Hello\\712World\""},
	{"js", "\"Hello\\0World\""},
	{"js", "\"Hello\\\x0d\nworld\""},
	{"js", "\"Hello\\1World\""},
	{"js", "var x = /[a-z]/i"},
	{"js", "var x = /[x-z]/i"},
	{"js", "var x = /[a-c]/i"},
	{"js", "var x = /[P QR]/i"},
	{"js", "var x = /foo\\/bar/"},
	{"js", "var x = /=([^=\\s])+/g"},
	{"js", "new Button"},
	{"js", "new Button()"},
	{"js", "new new foo"},
	{"js", "new new foo()"},
	{"js", "new foo().bar()"},
	{"js", "new foo[bar]"},
	{"js", "new foo.bar()"},
	{"js", "( new foo).bar()"},
	{"js", "foo(bar, baz)"},
	{"js", "(    foo  )()"},
	{"js", "universe.milkyway"},
	{"js", "universe.milkyway.solarsystem"},
	{"js", "universe.milkyway.solarsystem.Earth"},
	{"js", "universe[galaxyName, otherUselessName]"},
	{"js", "universe[galaxyName]"},
	{"js", "universe[42].galaxies"},
	{"js", "universe(42).galaxies"},
	{"js", "universe(42).galaxies(14, 3, 77).milkyway"},
	{"js", "earth.asia.Indonesia.prepareForElection(2014)"},
	{"js", "universe.if"},
	{"js", "universe.true"},
	{"js", "universe.false"},
	{"js", "universe.null"},
	{"js", "x++"},
	{"js", "x--"},
	{"js", "eval++"},
	{"js", "eval--"},
	{"js", "arguments++"},
	{"js", "arguments--"},
	{"js", "++x"},
	{"js", "--x"},
	{"js", "++eval"},
	{"js", "--eval"},
	{"js", "++arguments"},
	{"js", "--arguments"},
	{"js", "+x"},
	{"js", "-x"},
	{"js", "~x"},
	{"js", "!x"},
	{"js", "void x"},
	{"js", "delete x"},
	{"js", "typeof x"},
	{"js", "x * y"},
	{"js", "x / y"},
	{"js", "x % y"},
	{"js", "x + y"},
	{"js", "x - y"},
	{"js", "x << y"},
	{"js", "x >> y"},
	{"js", "x >>> y"},
	{"js", "x < y"},
	{"js", "x > y"},
	{"js", "x <= y"},
	{"js", "x >= y"},
	{"js", "x in y"},
	{"js", "x instanceof y"},
	{"js", "x < y < z"},
	{"js", "x == y"},
	{"js", "x != y"},
	{"js", "x === y"},
	{"js", "x !== y"},
	{"js", "x & y"},
	{"js", "x ^ y"},
	{"js", "x | y"},
	{"js", "x + y + z"},
	{"js", "x - y + z"},
	{"js", "x + y - z"},
	{"js", "x - y - z"},
	{"js", "x + y * z"},
	{"js", "x + y / z"},
	{"js", "x - y % z"},
	{"js", "x * y * z"},
	{"js", "x * y / z"},
	{"js", "x * y % z"},
	{"js", "x % y * z"},
	{"js", "x << y << z"},
	{"js", "x | y | z"},
	{"js", "x & y & z"},
	{"js", "x ^ y ^ z"},
	{"js", "x & y | z"},
	{"js", "x | y ^ z"},
	{"js", "x | y & z"},
	{"js", "x || y"},
	{"js", "x && y"},
	{"js", "x || y || z"},
	{"js", "x && y && z"},
	{"js", "x || y && z"},
	{"js", "x || y ^ z"},
	{"js", "y ? 1 : 2"},
	{"js", "x && y ? 1 : 2"},
	{"js", "x = 42"},
	{"js", "eval = 42"},
	{"js", "arguments = 42"},
	{"js", "x *= 42"},
	{"js", "x /= 42"},
	{"js", "x %= 42"},
	{"js", "x += 42"},
	{"js", "x -= 42"},
	{"js", "x <<= 42"},
	{"js", "x >>= 42"},
	{"js", "x >>>= 42"},
	{"js", "x &= 42"},
	{"js", "x ^= 42"},
	{"js", "x |= 42"},
	{"js", "{ foo }"},
	{"js", "{ doThis(); doThat(); }"},
	{"js", "{}"},
	{"js", "var x"},
	{"js", "var await"},
	{"js", "var x, y;"},
	{"js", "var x = 42"},
	{"js", "var eval = 42, arguments = 42"},
	{"js", "var x = 14, y = 3, z = 1977"},
	{"js", "var implements, interface, package"},
	{"js", "var private, protected, public, static"},
	{"js", ";"},
	{"js", "x"},
	{"js", "x, y"},
	{"js", "\\u0061"},
	{"js", "a\\u0061"},
	{"js", "if (morning) goodMorning()"},
	{"js", "if (morning) (function(){})"},
	{"js", "if (morning) var x = 0;"},
	{"js", "if (morning) function a(){}"},
	{"js", "if (morning) goodMorning(); else goodDay()"},
	{"js", "do keep(); while (true);"},
	{"js", "{ do { } while (false);false }"},
	{"js", "while (true) doSomething()"},
	{"js", "while (x < 10) { x++; y--; }"},
	{"js", "for(;;);"},
	{"js", "for(;;){}"},
	{"js", "for(x = 0;;);"},
	{"js", "for(var x = 0;;);"},
	{"js", "for(var x = 0, y = 1;;);"},
	{"js", "for(x = 0; x < 42;);"},
	{"js", "for(x = 0; x < 42; x++);"},
	{"js", "for(x = 0; x < 42; x++) process(x);"},
	{"js", "for(x in list) process(x);"},
	{"js", "for (var x in list) process(x);"},
	{"js", "for (var x = 42 in list) process(x);"},
	{"js", "for (var i = function() { return 10 in [] } in list) process(x);"},
	{"js", "while (true) { continue; }"},
	{"js", "while (true) { continue }"},
	{"js", "done: while (true) { continue done }"},
	{"js", "done: while (true) { continue done; }"},
	{"js", "while (true) { break }"},
	{"js", "done: while (true) { break done }"},
	{"js", "done: while (true) { break done; }"},
	{"js", "done: switch (a) { default: break done }"},
	{"js", "(function(){ return })"},
	{"js", "(function(){ return; })"},
	{"js", "(function(){ return x; })"},
	{"js", "(function(){ return x * y })"},
	{"js", "with (x) foo = bar"},
	{"js", "with (x) foo = bar;"},
	{"js", "with (x) { foo = bar }"},
	{"js", "switch (x) {}"},
	{"js", "switch (answer) { case 42: hi(); break; }"},
	{"js", "switch (answer) { case 42: hi(); break; default: break }"},
	{"js", "start: for (;;) break start"},
	{"js", "start: while (true) break start"},
	{"js", "throw x;"},
	{"js", "throw x * y"},
	{"js", "throw { message: \"Error\" }"},
	{"js", "try { } catch (e) { }"},
	{"js", "try { } catch (eval) { }"},
	{"js", "try { } catch (arguments) { }"},
	{"js", "try { } catch (e) { say(e) }"},
	{"js", "try { } finally { cleanup(stuff) }"},
	{"js", "try { doThat(); } catch (e) { say(e) }"},
	{"js", "try { doThat(); } catch (e) { say(e) } finally { cleanup(stuff) }"},
	{"js", "debugger;"},
	{"js", "function hello() { sayHi(); }"},
	{"js", "function eval() { }"},
	{"js", "function arguments() { }"},
	{"js", "function test(t, t) { }"},
	{"js", "(function test(t, t) { })"},
	{"js", "function eval() { function inner() { \"use strict\" } }"},
	{"js", "function hello(a) { sayHi(); }"},
	{"js", "function hello(a, b) { sayHi(); }"},
	{"js", "function hello(...rest) { }"},
	{"js", "function hello(a, ...rest) { }"},
	{"js", "var hi = function() { sayHi() };"},
	{"js", "var hi = function (...r) { sayHi() };"},
	{"js", "var hi = function eval() { };"},
	{"js", "var hi = function arguments() { };"},
	{"js", "var hello = function hi() { sayHi() };"},
	{"js", "(function(){})"},
	{"js", "{ x\n++y }"},
	{"js", "{ x\n--y }"},
	{"js", "var x /* comment */;"},
	{"js", "{ var x = 14, y = 3\nz; }"},
	{"js", "while (true) { continue\nthere; }"},
	{"js", "while (true) { continue // Comment\nthere; }"},
	{"js", "while (true) { continue /* Multiline\nComment */there; }"},
	{"js", "while (true) { break\nthere; }"},
	{"js", "while (true) { break // Comment\nthere; }"},
	{"js", "while (true) { break /* Multiline\nComment */there; }"},
	{"js", "(function(){ return\nx; })"},
	{"js", "(function(){ return // Comment\nx; })"},
	{"js", "(function(){ return/* Multiline\nComment */x; })"},
	{"js", "{ throw error\nerror; }"},
	{"js", "{ throw error// Comment\nerror; }"},
	{"js", "{ throw error/* Multiline\nComment */error; }"},
	{"js", "foo: if (true) break foo;"},
	{"js", "a: { b: switch(x) {} }"},
	{"js", "(function () {\n 'use strict';\n '\x00';\n}())"},
	{"js", "123..toString(10)"},
	{"js", "123.+2"},
	{"js", "a\xe2\x80\xa8b"},
	{"js", "'a\\u0026b'"},
	{"js", "foo: 10; foo: 20;"},
	{"js", "if(1)/  foo/"},
	{"js", "price_9\xcc\xb69\xcc\xb6_89"},
	{"js", "a.in / b"},
	{"js", "{}/=/"},
	{"js", "'use strict';\nobject.static();"},
	{"js", "foo <!--bar\n+baz"},
	{"js", "a = import(a)"},
	{"js", "a = import.meta"},
	{"js", "class A extends B { constructor() { super() } }"},
	{"js", "`\\n${a}b`"},
	{"js", "`${a}b${c}`"},
	{"js", " `${a}\nb\n${`c${d}e`}`"},
	{"js", "tag`a`"},
	{"js", "tag.a().b[c]`a`"},
	{"js", "class A { #a; get false() {} b; }"},
	{"js", "import {b} from \"a\""},
	{"js", "import {from as as} from \"a\""},
	{"js", "import b, * as c from \"a\""},
	{"js", "export const a = 1;"},
	{"js", "export { a as b  } from \"c\";"},
	{"js", "export async function a() {};"},
	{"js", "export * as b from 'a' ;"},
	{"js", "const a = async () => {}"},
	{"js", "async function* a() {\n  {\n    yield 1\n  }\n}"},
	{"js", "async function* a() { yield yield* 1 ? a : b }"},
	{"js", "+{} / 2"},
	{"js", "{}\n/foo/"},
	{"js", "({a: [1]}+[]) / 2"},
	{"js", "x = {foo: function x() {} / divide}"},
	{"js", "switch(a) { case 1: {}\n/foo/ }"},
	{"js", "+x++ / 2"},
	{"js", "+function f() {} / 3;"},
	{"js", "foo; function f() {} /regexp/"},
	{"js", "{function f() {} /regexp/}"},
	{"js", "function a() {\n  return\n  /a/\n}"},
	{"js", "class a { async a() {} }"},
	{"js", "class a { async* [1]() {} }"},
	{"js", "for (; function () {} / 1;);"},
	{"js", "for (; class {} / 1;);"},
	{"js", "for (;; function () {} / 1);"},
	{"js", "for (;; class {} / 1);"},
	{"js", "class a { a = 1 }"},
	{"js", "function a(a = 1) {}"},
	{"js", "function a({ a: { b = 1 } }) {}"},
	{"js", "function a({ a: { b: { c = 1 } } }) {}"},
	{"js", "let a = (a = 1) => {}"},
	{"js", "let a = ({ a = 1 }) => {}"},
	{"js", "let a = ({ a: { b = 1 } }) => {}"},
	{"js", "function a([ a = 1 ]) {}"},
	{"js", "({...obj})"},
	{"js", "({...obj1,})"},
	{"js", "({...obj1,...obj2})"},
	{"js", "({a,...obj1,b:1,...obj2,c:2})"},
	{"js", "({...(obj)})"},
	{"js", "({...a,b,c})"},
	{"js", "({...(a,b),c})"},
	{"js", "({...obj} = foo)"},
	{"js", "({a,...obj} = foo)"},
	{"js", "({a:b,...obj} = foo)"},
	{"js", "({...obj}) => {}"},
	{"js", "({...obj} = {}) => {}"},
	{"js", "({a,...obj}) => {}"},
	{"js", "({a:b,...obj}) => {}"},
	{"js", "let {...obj1} = foo"},
	{"js", "let {...obj1} =  {...a,}"},
	{"js", "({...(obj)} = foo)"},
	{"js", "let z = {...x}"},
	{"js", "z = {x, ...y}"},
	{"js", "({x, ...y, a, ...b, c})"},
	{"js", "var someObject = { someKey: { ...mapGetters([ 'some_val_1', 'some_val_2' ]) } }"},
	{"js", "let {x, ...y} = v"},
	{"js", "(function({x, ...y}) {})"},
	{"js", "const fn = ({text = \"default\", ...props}) => text + props.children"},
	{"js", "`foo`"},
	{"js", "`foo\\u25a0`"},
	{"js", "`foo${bar}\\u25a0`"},
	{"js", "foo`\\u25a0`"},
	{"js", "foo`foo${bar}\\u25a0`"},
	{"js", "foo`\\unicode`"},
	{"js", "foo`foo${bar}\\unicode`"},
	{"js", "foo`\\u`"},
	{"js", "foo`\\u{`"},
	{"js", "foo`\\u{abcdx`"},
	{"js", "foo`\\u{abcdx}`"},
	{"js", "foo`\\unicode\\\\`"},
	{"js", "`${ {class: 1} }`"},
	{"js", "`${ {delete: 1} }`"},
	{"js", "`${ {enum: 1} }`"},
	{"js", "`${ {function: 1} }`"},
	{"js", "function foo(a,) { }"},
	{"js", "(function(a,) { })"},
	{"js", "(a,) => a"},
	{"js", "async (a,) => a"},
	{"js", "({foo(a,) {}})"},
	{"js", "class A {foo(a,) {}}"},
	{"js", "class A {static foo(a,) {}}"},
	{"js", "(class {foo(a,) {}})"},
	{"js", "(class {static foo(a,) {}})"},
	{"js", "export default function foo(a,) { }"},
	{"js", "export default (function foo(a,) { })"},
	{"js", "export function foo(a,) { }"},
	{"js", "foo(a,)"},
	{"js", "new foo(a,)"},
	{"js", "foo(...a,)"},
	{"js", "new foo(...a,)"},
	{"js", "a &&= b"},
	{"js", "a ||= b"},
	{"js", "a ??= b"},
	{"js", "a &&= b ||= c ??= d"},
	{"js", "foo"},
	{"js", "function wrap() { foo }"},
	{"js", "!function wrap() { foo }"},
	{"js", "() => { foo }"},
	{"js", "100"},
	{"js", "\"use strict\" + 1"},
	{"js", "; 'use strict'; with ({}) {}"},
	{"js", "\"use strict\"\n foo"},
	{"js", "'use strict'; foo"},
	{"js", "function wrap() { \"use strict\"\n foo }"},
	{"js", "!function wrap() { \"use strict\"\n foo }"},
	{"js", "() => { \"use strict\"\n foo }"},
	{"js", "() => \"use strict\""},
	{"js", "({ wrap() { \"use strict\"; foo } })"},
	{"js", "(class { wrap() { \"use strict\"; foo } })"},
	{"js", "\"\\u0075se strict\""},
	{"js", "\"use asm\"; \"use strict\"; foo"},
	{"js", "function wrap() { \"use asm\"; \"use strict\"; foo }"},
	{"js", "\"use strict\"; foo; \"use asm\""},
	{"js", "function wrap() { \"use asm\"; foo; \"use strict\" }"},
	{"js", "{ \"use strict\"; }"},
	{"js", "function wrap() { { \"use strict\" } foo }"},
	{"js", "(\"use strict\"); foo"},
	{"js", "function wrap() { (\"use strict\"); foo }"},
	{"js", "function a() { \"use strict\" } \"use strict\"; foo"},
	{"js", "function failsParse() { return import.then(); }"},
	{"js", "var dynImport = import; dynImport('http');"},
	{"js", "import('test.js')"},
	{"js", "import()"},
	{"js", "import(a, b)"},
	{"js", "import(...[a])"},
	{"js", "import(source,)"},
	{"js", "new import(source)"},
	{"js", "(import)(s)"},
	{"js", "import('dynamicImport.js')"},
	{"js", "import(a = 'dynamicImport.js')"},
	{"js", "new (import(s))"},
	{"js", "import((s,t))"},
	{"js", "x **= 42"},
	{"js", "x ** y"},
	{"js", "delete o.p ** 2;"},
	{"js", "void 2 ** 2;"},
	{"js", "typeof 2 ** 2;"},
	{"js", "~3 ** 2;"},
	{"js", "!1 ** 2;"},
	{"js", "-2** 2;"},
	{"js", "+2** 2;"},
	{"js", "-(i--) ** 2"},
	{"js", "+(i--) ** 2"},
	{"js", "x %* y"},
	{"js", "x %*= y"},
	{"js", "function foo(a=2) { 'use strict'; }"},
	{"js", "(a=2) => { 'use strict'; }"},
	{"js", "function foo({a}) { 'use strict'; }"},
	{"js", "({a}) => { 'use strict'; }"},
	{"js", "'use strict'; if(x) function f() {}"},
	{"js", "'use strict'; function y(x = 1) { 'use strict' }"},
	{"js", "3 ** 5 * 1"},
	{"js", "3 % 5 ** 1"},
	{"js", "-a * 5"},
	{"js", "(-5) ** y"},
	{"js", "++a ** 2"},
	{"js", "a-- ** 2"},
	{"js", "if (x) function f() {}"},
	{"js", "if (x) function f() { return 23; } else function f() { return 42; }"},
	{"js", "function foo(a) { 'use strict'; }"},
	{"js", "export * as ns from \"source\""},
	{"js", "export * as ns"},
	{"js", "export * as from \"source\""},
	{"js", "export * as ns \"source\""},
	{"js", "export {} as ns from \"source\""},
	{"js", "export * as foo from \"bar\""},
	{"js", "export * from \"source\""},
	{"js", "([a.a]) => 42"},
	{"js", "() => {}()"},
	{"js", "(a) => {}()"},
	{"js", "a => {}()"},
	{"js", "console.log(typeof () => {});"},
	{"js", "x = { method() { super(); } }"},
	{"js", "export var await"},
	{"js", "export new Foo();"},
	{"js", "export typeof foo;"},
	{"js", "export *"},
	{"js", "export { encrypt }"},
	{"js", "class Test {}; export default class Test {}"},
	{"js", "export { encrypt, encrypt }"},
	{"js", "var encrypt; export { encrypt }; export { encrypt }"},
	{"js", "export { decrypt as encrypt }; function encrypt() {}"},
	{"js", "export { encrypt }; if (true) function encrypt() {}"},
	{"js", "{ function encrypt() {} } export { encrypt }"},
	{"js", "export { default }"},
	{"js", "export { if }"},
	{"js", "export { default as foo }"},
	{"js", "export { if as foo }"},
	{"js", "import default from \"foo\""},
	{"js", "import { class } from 'foo'"},
	{"js", "import { class, var } from 'foo'"},
	{"js", "import { a as class } from 'foo'"},
	{"js", "import * as class from 'foo'"},
	{"js", "import { enum } from 'foo'"},
	{"js", "import { a as enum } from 'foo'"},
	{"js", "import * as enum from 'foo'"},
	{"js", "() => { class a extends b { static get prototype(){} } }"},
	{"js", "class a extends b { static set prototype(a){} }"},
	{"js", "class a { static prototype(a){} }"},
	{"js", "function *g() { (x = yield) => {} }"},
	{"js", "function *g() { ({x = yield}) => {} }"},
	{"js", "(class { *static x() {} })"},
	{"js", "(class A {constructor() { super() }})"},
	{"js", "(class A extends B { constructor() { function f() { super() } } })"},
	{"js", "(class A extends B { method() { super() } })"},
	{"js", "class A { constructor() {} 'constructor'() {} }"},
	{"js", "class A { get constructor() {} }"},
	{"js", "class A { *constructor() {} }"},
	{"js", "\"use strict\"; (class A extends B { static constructor() { super() }})"},
	{"js", "({[x]})"},
	{"js", "function x(...[ a, b ]){}"},
	{"js", "(([...[ a, b ]]) => {})"},
	{"js", "function x({ a: { w, x }, b: [y, z] }, ...[a, b, c]){}"},
	{"js", "(function ({ a(){} }) {})"},
	{"js", "(function x(...[ a, b ]){})"},
	{"js", "var a = { set foo(...v) {} };"},
	{"js", "class a { set foo(...v) {} };"},
	{"js", "(function x({ a: { w, x }, b: [y, z] }, ...[a, b, c]){})"},
	{"js", "(...[a, b]) => {}"},
	{"js", "(a, ...[b]) => {}"},
	{"js", "0o"},
	{"js", "0o1a"},
	{"js", "0o9"},
	{"js", "0O18"},
	{"js", "0b"},
	{"js", "0b1a"},
	{"js", "0b9"},
	{"js", "0b18"},
	{"js", "0b12"},
	{"js", "0B"},
	{"js", "0B1a"},
	{"js", "0B9"},
	{"js", "0B18"},
	{"js", "0B12"},
	{"js", "\"\\u{110000}\""},
	{"js", "\"\\u{}\""},
	{"js", "\"\\u{FFFF\""},
	{"js", "\"\\u{FFZ}\""},
	{"js", "[v] += ary"},
	{"js", "[2] = 42"},
	{"js", "({ obj:20 }) = 42"},
	{"js", "( { get x() {} } = 0)"},
	{"js", "x \n is y"},
	{"js", "x \n isnt y"},
	{"js", "function default() {}"},
	{"js", "function hello() {'use strict'; ({ i: 10, s(eval) { } }); }"},
	{"js", "function a() { \"use strict\"; ({ b(t, t) { } }); }"},
	{"js", "var super"},
	{"js", "var default"},
	{"js", "let default"},
	{"js", "const default"},
	{"js", "\"use strict\"; ({ v: eval } = obj)"},
	{"js", "\"use strict\"; ({ v: arguments } = obj)"},
	{"js", "for (let x = 42 in list) process(x);"},
	{"js", "for (const x = 42 in list) process(x);"},
	{"js", "for (let x = 42 of list) process(x);"},
	{"js", "for (const x = 42 of list) process(x);"},
	{"js", "for (var x = 42 of list) process(x);"},
	{"js", "for (var {x} = 42 of list) process(x);"},
	{"js", "for (var [x] = 42 of list) process(x);"},
	{"js", "var x; for (x = 42 of list) process(x);"},
	{"js", "import foo"},
	{"js", "import { foo, bar }"},
	{"js", "import foo from bar"},
	{"js", "((a)) => 42"},
	{"js", "(a, (b)) => 42"},
	{"js", "\"use strict\"; (eval = 10) => 42"},
	{"js", "\"use strict\"; eval => 42"},
	{"js", "\"use strict\"; arguments => 42"},
	{"js", "\"use strict\"; (eval, a) => 42"},
	{"js", "\"use strict\"; (arguments, a) => 42"},
	{"js", "\"use strict\"; (eval, a = 10) => 42"},
	{"js", "(a, a) => 42"},
	{"js", "function foo(a, a = 2) {}"},
	{"js", "\"use strict\"; (a, a) => 42"},
	{"js", "\"use strict\"; (a) => 00"},
	{"js", "() <= 42"},
	{"js", "(10) => 00"},
	{"js", "(10, 20) => 00"},
	{"js", "yield v"},
	{"js", "yield 10"},
	{"js", "void { [1, 2]: 3 };"},
	{"js", "let [this] = [10]"},
	{"js", "let {this} = x"},
	{"js", "let [function] = [10]"},
	{"js", "let [function] = x"},
	{"js", "([function] = [10])"},
	{"js", "([this] = [10])"},
	{"js", "({this} = x)"},
	{"js", "var x = {this}"},
	{"js", "(function () { yield 10 })"},
	{"js", "let let"},
	{"js", "const let"},
	{"js", "let { let } = {};"},
	{"js", "const { let } = {};"},
	{"js", "let [let] = [];"},
	{"js", "const [let] = [];"},
	{"js", "'use strict'; let + 1"},
	{"js", "'use strict'; let let"},
	{"js", "'use strict'; const let"},
	{"js", "'use strict'; let { let } = {};"},
	{"js", "'use strict'; const { let } = {};"},
	{"js", "'use strict'; let [let] = [];"},
	{"js", "'use strict'; const [let] = [];"},
	{"js", "(function() { \"use strict\"; f(yield v) })"},
	{"js", "var obj = { *test** }"},
	{"js", "class A extends yield B { }"},
	{"js", "class default"},
	{"js", "class let {}"},
	{"js", "`test"},
	{"js", "switch `test`"},
	{"js", "`hello ${10 `test`"},
	{"js", "`hello ${10;test`"},
	{"js", "function a() 1 // expression closure is not supported"},
	{"js", "({ \"chance\" }) = obj"},
	{"js", "({ 42 }) = obj"},
	{"js", "function f(a, ...b, c)"},
	{"js", "function f(a, ...b = 0)"},
	{"js", "(([a, ...b = 0]) => {})"},
	{"js", "[a, ...b = 0] = []"},
	{"js", "function x(...{ a }){}"},
	{"js", "\"use strict\"; function x(a, { a }){}"},
	{"js", "\"use strict\"; function x({ b: { a } }, [{ b: { a } }]){}"},
	{"js", "\"use strict\"; function x(a, ...[a]){}"},
	{"js", "(...a, b) => {}"},
	{"js", "([ 5 ]) => {}"},
	{"js", "({ 5 }) => {}"},
	{"js", "(...[ 5 ]) => {}"},
	{"js", "[...a, b] = c"},
	{"js", "({ t(eval) { \"use strict\"; } });"},
	{"js", "\"use strict\"; `${test}\\02`;"},
	{"js", "if (1) import \"acorn\";"},
	{"js", "[...a, ] = b"},
	{"js", "if (b,...a, );"},
	{"js", "(b, ...a)"},
	{"js", "switch (cond) { case 10: let a = 20; "},
	{"js", "\"use strict\"; (eval) => 42"},
	{"js", "(eval) => { \"use strict\"; 42 }"},
	{"js", "({ get test() { } }) => 42"},
	{"js", "obj = {x = 0}"},
	{"js", "f({x = 0})"},
	{"js", "(localVar |= defaultValue) => {}"},
	{"js", "let [x]"},
	{"js", "var _\xf0\x96\xab\xb5 = 11;"},
	{"js", "var \xf0\xab\xa0\x9e_ = 12;"},
	{"js", "var \xf0\xab\xa0\x9f_ = 10;"},
	{"js", "if (1) let x = 10;"},
	{"js", "for (;;) const x = 10;"},
	{"js", "while (1) function foo(){}"},
	{"js", "if (1) ; else class Cls {}"},
	{"js", "'use strict'; [...eval] = arr"},
	{"js", "'use strict'; ({eval = defValue} = obj)"},
	{"js", "[...eval] = arr"},
	{"js", "function* y({yield}) {}"},
	{"js", "new.prop"},
	{"js", "new.target"},
	{"js", "let y = () => new.target"},
	{"js", "`\\07`"},
	{"js", "(function(){ 'use strict'; '\\07'; })"},
	{"js", "x = { method() 42 }"},
	{"js", "x = { get method() 42 }"},
	{"js", "x = { set method(val) v = val }"},
	{"js", "/\\u{110000}/u"},
	{"js", "super"},
	{"js", "class A { get prop(x) {} }"},
	{"js", "class A { set prop() {} }"},
	{"js", "class A { set prop(x, y) {} }"},
	{"js", "({ __proto__: 1, __proto__: 2 })"},
	{"js", "({ '__proto__': 1, __proto__: 2 })"},
	{"js", "var await = 0"},
	{"js", "/[a-z]/s"},
	{"js", "[...x in y] = []"},
	{"js", "export let x = a; export function x() {}"},
	{"js", "export let [{x = 2}] = a; export {x}"},
	{"js", "export default 100; export default 3"},
	{"js", "function foo() { 'use strict'; return {yield} }"},
	{"js", "function foo() { 'use strict'; var {arguments} = {} }"},
	{"js", "function foo() { 'use strict'; var {eval} = {} }"},
	{"js", "function foo() { 'use strict'; var {arguments = 1} = {} }"},
	{"js", "function foo() { 'use strict'; var {eval = 1} = {} }"},
	{"js", "function* wrap() { function* foo(a = 1 + (yield)) {} }"},
	{"js", "function* wrap() { return (a = 1 + (yield)) => a }"},
	{"js", "(function* g() {\nfor (yield '' in {}; ; ) ;\n }"},
	{"js", "(function* yield() {})"},
	{"js", "function* wrap() {\nfunction* yield() {}\n}"},
	{"js", "function* foo(a = yield b) {}"},
	{"js", "(function* foo(a = yield b) {})"},
	{"js", "({*foo(a = yield b) {}})"},
	{"js", "(class {*foo(a = yield b) {}})"},
	{"js", "function* foo(a = class extends (yield b) {}) {}"},
	{"js", "function* wrap() {\n(a = yield b) => a\n}"},
	{"js", "class B { constructor(a = super()) { return a }}"},
	{"js", "function* wrap() {\n({a = yield b} = obj) => a\n}"},
	{"js", "({*foo: 1})"},
	{"js", "export { default} from './y.js';\nexport default 42;"},
	{"js", "export * from foo"},
	{"js", "export { bar } from foo"},
	{"js", "foo: class X {}"},
	{"js", "'use strict'; bar: function x() {}"},
	{"js", "'use strict'; bar: function* x() {}"},
	{"js", "bar: function* x() {}"},
	{"js", "({x, y}) = {}"},
	{"js", "var foo = 1; let foo = 1;"},
	{"js", "{ var foo = 1; let foo = 1; }"},
	{"js", "let bar; var foo = 1; let foo = 1;"},
	{"js", "{ let bar; var foo = 1; let foo = 1; }"},
	{"js", "let foo = 1; var foo = 1;"},
	{"js", "let bar; let foo = 1; var foo = 1;"},
	{"js", "{ let bar; let foo = 1; var foo = 1; }"},
	{"js", "let foo = 1; let foo = 1;"},
	{"js", "var foo = 1; const foo = 1;"},
	{"js", "const foo = 1; var foo = 1;"},
	{"js", "var [foo] = [1]; let foo = 1;"},
	{"js", "var [{ bar: [foo] }] = x; let {foo} = 1;"},
	{"js", "if (x) var foo = 1; let foo = 1;"},
	{"js", "if (x) {} else var foo = 1; let foo = 1;"},
	{"js", "if (x) var foo = 1; else {} let foo = 1;"},
	{"js", "if (x) {} else if (y) {} else var foo = 1; let foo = 1;"},
	{"js", "while (x) var foo = 1; let foo = 1;"},
	{"js", "do var foo = 1; while (x) let foo = 1;"},
	{"js", "for (;;) var foo = 1; let foo = 1;"},
	{"js", "for (const x of y) var foo = 1; let foo = 1;"},
	{"js", "for (const x in y) var foo = 1; let foo = 1;"},
	{"js", "label: var foo = 1; let foo = 1;"},
	{"js", "switch (x) { case 0: var foo = 1 } let foo = 1;"},
	{"js", "try { var foo = 1; } catch (e) {} let foo = 1;"},
	{"js", "function foo() {} let foo = 1;"},
	{"js", "{ var foo = 1; } let foo = 1;"},
	{"js", "let foo = 1; { var foo = 1; }"},
	{"js", "let foo = 1; function x(foo) {} { var foo = 1; }"},
	{"js", "if (x) { if (y) var foo = 1; } let foo = 1;"},
	{"js", "var foo = 1; function x() {} let foo = 1;"},
	{"js", "{ let foo = 1; { let foo = 2; } let foo = 1; }"},
	{"js", "for (var foo of y) {} let foo = 1;"},
	{"js", "function x(foo) { let foo = 1; }"},
	{"js", "var [...foo] = x; let foo = 1;"},
	{"js", "foo => { let foo; }"},
	{"js", "({ x(foo) { let foo; } })"},
	{"js", "try {} catch (foo) { let foo = 1; }"},
	{"js", "(x) => {} + 2"},
	{"js", "'use strict'; { function f() {} function f() {} }"},
	{"js", "{ function f() {} function* f() {} }"},
	{"js", "{ function* f() {} function f() {} }"},
	{"js", "class A extends B { constructor() { super } }"},
	{"js", "class A extends B { constructor() { super; } }"},
	{"js", "class A extends B { constructor() { (super)() } }"},
	{"js", "class A extends B { foo() { (super).foo } }"},
	{"js", "for (let x of y, z) {}"},
	{"js", "[...foo, bar] = b"},
	{"js", "for (let [...foo, bar] in qux);"},
	{"js", "var f;\nfunction f() {}"},
	{"js", "({ a = 42, b: c = d })"},
	{"js", "for (let a = b => b in c;;);"},
	{"js", "for (let a = b => c => d in e;;);"},
	{"js", "for (var a = b => c in d;;);"},
	{"js", "for (var a = b => c => d in e;;);"},
	{"js", "for (x => x in y;;);"},
	{"js", "for (x => y => y in z;;);"},
	{"js", "try {} catch {}"},
	{"js", "function f() {}\nvar f;"},
	{"js", "\"\\u{714E}\\u{8336}\""},
	{"js", "\"\\u{20BB7}\\u{91CE}\\u{5BB6}\""},
	{"js", "00"},
	{"js", "0o0"},
	{"js", "function test() {'use strict'; 0o0; }"},
	{"js", "0o2"},
	{"js", "0o12"},
	{"js", "0O0"},
	{"js", "function test() {'use strict'; 0O0; }"},
	{"js", "0O2"},
	{"js", "0O12"},
	{"js", "0b0"},
	{"js", "0b1"},
	{"js", "0b10"},
	{"js", "0B0"},
	{"js", "0B1"},
	{"js", "0B10"},
	{"js", "`42`"},
	{"js", "raw`42`"},
	{"js", "raw`hello ${name}`"},
	{"js", "`$`"},
	{"js", "`\\n\\r\\b\\v\\t\\f\\\n\\\x0d\n\\\xe2\x80\xa8\\\xe2\x80\xa9`"},
	{"js", "`\n\x0d\n\x0d`"},
	{"js", "`\\u{000042}\\u0042\\x42u0\\A`"},
	{"js", "new raw`42`"},
	{"js", "`outer${{x: {y: 10}}}bar${`nested${function(){return 1;}}endnest`}end`"},
	{"js", "switch (answer) { case 42: let t = 42; break; }"},
	{"js", "() => \"test\""},
	{"js", "e => \"test\""},
	{"js", "(e) => \"test\""},
	{"js", "(a, b) => \"test\""},
	{"js", "e => { 42; }"},
	{"js", "e => ({ property: 42 })"},
	{"js", "e => { label: 42 }"},
	{"js", "(a, b) => { 42; }"},
	{"js", "([a, , b]) => 42"},
	{"js", "(() => {})()"},
	{"js", "((() => {}))()"},
	{"js", "(x=1) => x * x"},
	{"js", "eval => 42"},
	{"js", "(a) => 00"},
	{"js", "(eval, a) => 42"},
	{"js", "(eval = 10) => 42"},
	{"js", "(eval, a = 10) => 42"},
	{"js", "(x => x)"},
	{"js", "x => y => 42"},
	{"js", "(x) => ((y, z) => (x, y, z))"},
	{"js", "foo(() => {})"},
	{"js", "foo((x, y) => {})"},
	{"js", "x = { method() { } }"},
	{"js", "x = { method(test) { } }"},
	{"js", "x = { 'method'() { } }"},
	{"js", "x = { get() { } }"},
	{"js", "x = { set() { } }"},
	{"js", "x = { method() { super.a(); } }"},
	{"js", "x = { y, z }"},
	{"js", "[a, b] = [b, a]"},
	{"js", "[a.r] = b"},
	{"js", "let [a,,b] = c"},
	{"js", "({ responseText: text } = res)"},
	{"js", "const {a} = {}"},
	{"js", "const [a] = []"},
	{"js", "let {a} = {}"},
	{"js", "let [a] = []"},
	{"js", "var {a} = {}"},
	{"js", "var [a] = []"},
	{"js", "const {a:b} = {}"},
	{"js", "let {a:b} = {}"},
	{"js", "var {a:b} = {}"},
	{"js", "export var document"},
	{"js", "export var document = { }"},
	{"js", "export let document"},
	{"js", "export let document = { }"},
	{"js", "export const document = { }"},
	{"js", "export function parse() { }"},
	{"js", "export class Class {}"},
	{"js", "export default 42"},
	{"js", "export default function () {}"},
	{"js", "export default function f() {}"},
	{"js", "export default class {}"},
	{"js", "export default class A {}"},
	{"js", "export default (class{});"},
	{"js", "export * from \"crypto\""},
	{"js", "export { encrypt }\nvar encrypt"},
	{"js", "function encrypt() {} let decrypt; export { encrypt, decrypt }"},
	{"js", "export default class Test {}; export { Test }"},
	{"js", "{ var encrypt } export { encrypt }"},
	{"js", "export { encrypt as default }; function* encrypt() {}"},
	{"js", "export { encrypt, decrypt as dec }; let encrypt, decrypt"},
	{"js", "export { default } from \"other\""},
	{"js", "import \"jquery\""},
	{"js", "import $ from \"jquery\""},
	{"js", "import { encrypt, decrypt } from \"crypto\""},
	{"js", "import { encrypt as enc } from \"crypto\""},
	{"js", "import crypto, { decrypt, encrypt as enc } from \"crypto\""},
	{"js", "import { null as nil } from \"bar\""},
	{"js", "import * as crypto from \"crypto\""},
	{"js", "(function* () { yield v })"},
	{"js", "(function* () { yield\nv })"},
	{"js", "(function* () { yield *v })"},
	{"js", "function* test () { yield *v }"},
	{"js", "var x = { *test () { yield *v } };"},
	{"js", "function* foo() { console.log(yield); }"},
	{"js", "function* t() {}"},
	{"js", "(function* () { yield yield 10 })"},
	{"js", "for(x of list) process(x);"},
	{"js", "for (var x of list) process(x);"},
	{"js", "for (let x of list) process(x);"},
	{"js", "for (let\n{x} of list) process(x);"},
	{"js", "var A = class extends B {}"},
	{"js", "class A extends class B extends C {} {}"},
	{"js", "class A {get() {}}"},
	{"js", "class A { static get() {}}"},
	{"js", "class A extends B {get foo() {}}"},
	{"js", "class A extends B { static get foo() {}}"},
	{"js", "class A {set a(v) {}}"},
	{"js", "class A { static set a(v) {}}"},
	{"js", "class A {set(v) {};}"},
	{"js", "class A { static set(v) {};}"},
	{"js", "class A {*gen(v) { yield v; }}"},
	{"js", "class A { static *gen(v) { yield v; }}"},
	{"js", "(class { *static() {} })"},
	{"js", "\"use strict\"; (class A extends B {constructor() { super() }})"},
	{"js", "(class A extends B { constructor() { (() => { super() }); } })"},
	{"js", "class A {'constructor'() {}}"},
	{"js", "class A { get ['constructor']() {} }"},
	{"js", "class A {static foo() {}}"},
	{"js", "class A {foo() {} static bar() {}}"},
	{"js", "class A { foo() {} bar() {}}"},
	{"js", "class A { static get foo() {} get foo() {}}"},
	{"js", "class A { static get foo() {} static get bar() {} }"},
	{"js", "class A { static get foo() {} static set foo(v) {} get foo() {} set foo(v) {}}"},
	{"js", "class A { static [foo]() {} }"},
	{"js", "class A { static get [foo]() {} }"},
	{"js", "class A { set foo(v) {} get foo() {} }"},
	{"js", "class A { foo() {} get foo() {} }"},
	{"js", "class Semicolon { ; }"},
	{"js", "class a { static }"},
	{"js", "({[x]: 10})"},
	{"js", "({[\"x\" + \"y\"]: 10})"},
	{"js", "({[x]: function() {}})"},
	{"js", "({[x]: 10, y: 20})"},
	{"js", "({get [x]() {}, set [x](v) {}})"},
	{"js", "({[x]() {}})"},
	{"js", "var {[x]: y} = {y}"},
	{"js", "function f({[x]: y}) {}"},
	{"js", "var x = {*[test]() { yield *v; }}"},
	{"js", "class A {[x]() {}}"},
	{"js", "function f([x] = [1]) {}"},
	{"js", "function f([x] = [1]) {  }"},
	{"js", "function f({x} = {x: 10}) {}"},
	{"js", "f = function({x} = {x: 10}) {}"},
	{"js", "({f: function({x} = {x: 10}) {}})"},
	{"js", "({f({x} = {x: 10}) {}})"},
	{"js", "(class {f({x} = {x: 10}) {}})"},
	{"js", "(({x} = {x: 10}) => {})"},
	{"js", "x = function(y = 1) {}"},
	{"js", "function f(a = 1) {}"},
	{"js", "x = { f: function(a=1) {} }"},
	{"js", "x = { f(a=1) {} }"},
	{"js", "function f(a, ...b) {}"},
	{"js", "function x([ a, b ]){}"},
	{"js", "function x({ a, b }){}"},
	{"js", "(function x([ a, b ]){})"},
	{"js", "(function x({ a, b }){})"},
	{"js", "({ x([ a, b ]){} })"},
	{"js", "({ x(...[ a, b ]){} })"},
	{"js", "({ x({ a: { w, x }, b: [y, z] }, ...[a, b, c]){} })"},
	{"js", "(...a) => {}"},
	{"js", "(a, ...b) => {}"},
	{"js", "({ a }) => {}"},
	{"js", "({ a }, ...b) => {}"},
	{"js", "({ a: [a, b] }, ...c) => {}"},
	{"js", "({ a: b, c }, [d, e], ...f) => {}"},
	{"js", "[...a] = b"},
	{"js", "[a, ...b] = c"},
	{"js", "[{ a, b }, ...c] = d"},
	{"js", "[a, ...[b, c]] = d"},
	{"js", "var [...a] = b"},
	{"js", "var [a, ...b] = c"},
	{"js", "var [{ a, b }, ...c] = d"},
	{"js", "var [a, ...[b, c]] = d"},
	{"js", "func(...a)"},
	{"js", "func(a, ...b)"},
	{"js", "func(...a, b)"},
	{"js", "/[a-z]/u"},
	{"js", "/[\\uD834\\uDF06-\\uD834\\uDF08a-z]/u"},
	{"js", "do {} while (false) foo();"},
	{"js", "let + 1"},
	{"js", "var let = 1"},
	{"js", "e => yield* 10"},
	{"js", "(function () { yield* 10 })"},
	{"js", "if (1) let\n{}"},
	{"js", "var yield = 2"},
	{"js", "[...{ a }] = b"},
	{"js", "doSth(`${x} + ${y} = ${x + y}`)"},
	{"js", "function normal(x, y = 10) {}"},
	{"js", "() => 42"},
	{"js", "import foo, * as bar from 'baz';"},
	{"js", "`{${x}}`, `}`"},
	{"js", "var {get} = obj;"},
	{"js", "var {propName: localVar = defaultValue} = obj"},
	{"js", "var {propName = defaultValue} = obj"},
	{"js", "var {get = defaultValue} = obj"},
	{"js", "var [localVar = defaultValue] = obj"},
	{"js", "({x = 0} = obj)"},
	{"js", "({x = 0}) => x"},
	{"js", "[a, {b: {c = 1}}] = arr"},
	{"js", "for ({x = 0} in arr);"},
	{"js", "try {} catch ({message}) {}"},
	{"js", "class A { static() {} }"},
	{"js", "for (const x of list) process(x);"},
	{"js", "class A { *static() {} }"},
	{"js", "`${/\\d/.exec('1')[0]}`"},
	{"js", "var _\xf0\x90\x92\xa6 = 10;"},
	{"js", "var \xf0\xab\xa0\x9d_ = 10;"},
	{"js", "var _\\u{104A6} = 10;"},
	{"js", "let [x,] = [1]"},
	{"js", "let {x} = y"},
	{"js", "[x,,] = 1"},
	{"js", "for (var [name, value] in obj) {}"},
	{"js", "function foo() { new.target; }"},
	{"js", "function x() { return () => new.target }"},
	{"js", "export default function foo() {} false"},
	{"js", "({ ['__proto__']: 1, __proto__: 2 })"},
	{"js", "({ __proto__() { return 1 }, __proto__: 2 })"},
	{"js", "({ get __proto__() { return 1 }, __proto__: 2 })"},
	{"js", "({ __proto__, __proto__: 2 })"},
	{"js", "({__proto__: a, __proto__: b} = {})"},
	{"js", "export default /foo/"},
	{"js", "l\\u0065t\na"},
	{"js", "/[a-z]/gimuy"},
	{"js", "(([,]) => 0)"},
	{"js", "function foo() { return {arguments} }"},
	{"js", "function foo() { return {eval} }"},
	{"js", "function foo() { 'use strict'; return {arguments} }"},
	{"js", "function foo() { 'use strict'; return {eval} }"},
	{"js", "function foo() { return {yield} }"},
	{"js", "function* foo(a = function*(b) { yield b }) { }"},
	{"js", "function* yield() {}"},
	{"js", "({*yield() {}})"},
	{"js", "class A {*yield() {}}"},
	{"js", "function* wrap() {\n({*yield() {}})\n}"},
	{"js", "function* wrap() {\nclass A {*yield() {}}\n}"},
	{"js", "function* foo(a = function* foo() { yield b }) {}"},
	{"js", "function* foo(a = {*bar() { yield b }}) {}"},
	{"js", "function* foo(a = class {*bar() { yield b }}) {}"},
	{"js", "function* wrap() {\n(a = yield b)\n}"},
	{"js", "function* wrap() {\n({a = yield b} = obj)\n}"},
	{"js", "export default class Foo {}++x"},
	{"js", "function *f() { yield\n{}/1/g\n}"},
	{"js", "class B extends A { constructor(a = super()) { return a }}"},
	{"js", "class B { foo(a = super.foo()) { return a }}"},
	{"js", "export { x as y } from './y.js';\nexport { x as z } from './z.js';"},
	{"js", "export { default as y } from './y.js';\nexport default 42;"},
	{"js", "[x, (y), {z, u: (v)}] = foo"},
	{"js", "export default function(x) {};"},
	{"js", "var foo = 1; var foo = 1;"},
	{"js", "if (x) var foo = 1; var foo = 1;"},
	{"js", "function x() { var foo = 1; } let foo = 1;"},
	{"js", "function foo() { let foo = 1; }"},
	{"js", "var foo = 1; { let foo = 1; }"},
	{"js", "{ let foo = 1; { let foo = 2; } }"},
	{"js", "var foo; try {} catch (_) { let foo; }"},
	{"js", "let x = 1; function foo(x) {}"},
	{"js", "for (let i = 0;;); for (let i = 0;;);"},
	{"js", "for (const foo of bar); for (const foo of bar);"},
	{"js", "for (const foo in bar); for (const foo in bar);"},
	{"js", "for (let foo in bar) { let foo = 1; }"},
	{"js", "for (let foo of bar) { let foo = 1; }"},
	{"js", "class Foo { method(foo) {} method2() { let foo; } }"},
	{"js", "() => { let foo; }; foo => {}"},
	{"js", "() => { let foo; }; () => { let foo; }"},
	{"js", "switch(x) { case 1: let foo = 1; } let foo = 1;"},
	{"js", "'use strict'; function foo() { let foo = 1; }"},
	{"js", "let foo = 1; function x() { var foo = 1; }"},
	{"js", "[...foo, bar = 1]"},
	{"js", "for (var a of /b/) {}"},
	{"js", "for (var {a} of /b/) {}"},
	{"js", "for (let {a} of /b/) {}"},
	{"js", "for (const {a} of /b/) {}"},
	{"js", "function* bar() { yield /re/ }"},
	{"js", "function* bar() { yield class {} }"},
	{"js", "() => {}\n/re/"},
	{"js", "(() => {}) + 2"},
	{"js", "function *f1() { function g() { return yield / 1 } }"},
	{"js", "function f() {} function f() {}"},
	{"js", "class Foo {} /regexp/"},
	{"js", "(class Foo {} / 2)"},
	{"js", "1 <!--b"},
	{"js", "({super: 1})"},
	{"js", "import {super as a} from 'a'"},
	{"js", "function a() {} export {a as super}"},
	{"js", "let instanceof Foo"},
	{"js", "function fn({__proto__: a, __proto__: b}) {}"},
	{"js", "[...a, x][1] = b"},
	{"js", "for ([...foo, bar].baz in qux);"},
	{"js", "function f() { var x; function x() {} }"},
	{"js", "a.of / 2"},
	{"js", "let x = 1; x = 2"},
	{"js", "function *f2() { () => yield / 1 }"},
	{"js", "({ a = 42, b: c.d } = e)"},
	{"js", "({ __proto__: x, __proto__: y, __proto__: z }) => {}"},
	{"js", "class x {}\n05"},
	{"js", "function x() { 'use strict' }\n05"},
	{"js", "const myFn = ({ set = '' }) => {};"},
	{"js", "[[...[], 0].x] = []"},
	{"js", "let \\u0061;"},
	{"js", "let in\\u0061;"},
	{"js", "let in\xf0\x9d\x90\xac\xf0\x9d\x90\xad\xf0\x9d\x90\x9a\xf0\x9d\x90\xa7\xf0\x9d\x90\x9c\xf0\x9d\x90\x9e\xf0\x9d\x90\xa8\xf0\x9d\x90\x9f;"},
	{"js", "let \xf0\x9d\x90\xa2\xf0\x9d\x90\xa7;"},
	{"js", "for ((a in b);;);"},
	{"js", "for (function (){ a in b };;);"},
	{"js", "let a = yield + 1"},
	{"js", "function foo() { return; x = 1; }"},
	{"js", "class foo { get bar(){ ~function () { return true; }()}}"},
	{"js", "for(e in a,b) {}"},
	{"js", "(functionName !== '' ? wrapperName + \"(\" + functionName + \")\" : wrapperName)"},
	{"js", "a: if (c) {\n  b: {\n  }\n  if (1 === b) {\n    break a;\n  }\n  c = h;\n}"},
	{"js", "const HomePage = Loadable({\n    loader: () => import('./pages/HomePage'),\n    loading: Loading\n});"},
	{"js", "path.replace(/([.+*?=^!:${}()[\\]|/\\\\])/g, \"\\\\$1\")"},
	{"js", "iconv.defaultCharUnicode = '\xef\xbf\xbd';"},
	{"js", "function f() {\n  function d() {}\n\n  var d = 1;\n}"},
	{"js", "<Polygon\n    fill={fontFill}\n    points=\"6.5,19.5 6.5,16.5 1.5,16.5 1.5,1.5 12.5,1.5 12.5,10.5 14.5,10.5 14.5,16.5 12.5,16.5 12.5,19.5\n    \" />"},
	{"js", "const onPress = tappable && (!!index || index === 0) ? () => {\n    } : undefined;"},
	{"js", "import.meta"},
	{"js", "import['meta']"},
	{"js", "a = import['meta']"},
	{"js", "import.target"},
	{"js", "new.meta"},
	{"js", "im\\u0070ort.meta"},
	{"js", "import.\\u006d\\u0065\\u0074\\u0061"},
	{"js", "import.meta.url"},
	{"js", "import.meta(s)"},
	{"js", "import.meta?.(a)[b]"},
	{"js", "import.meta?.a().c[d](e)"},
	{"js", "'\xe2\x80\xa9'"},
	{"js", "'\\u2028'"},
	{"js", "\"\xe2\x80\xa8\""},
	{"js", "`\xe2\x80\xa9`"},
	{"js", "`\xe2\x80\xa8`"},
	{"js", "\"\xe2\x80\xa9\""},
	{"js", "/\xe2\x80\xa9/"},
	{"js", "/\xe2\x80\xa8/"},
	{"js", "var x = <div>one</div><div>two</div>;"},
	{"js", "<a:b.c />"},
	{"js", "<ns:div />"},
	{"js", "<div ns:attr />"},
	{"js", "<A>foo{</A>"},
	{"js", "<A>foo<</A>"},
	{"js", "<a>{/* foo */}</a>"},
	{"js", "<A>foo{\"{\"}</A>"},
	{"js", "<A>foo{\"<\"}</A>"},
	{"js", "<A>foo{\"}\"}</A>"},
	{"js", "<A>foo&rbrace;</A>"},
	{"js", "<A>foo{\">\"}</A>"},
	{"js", "<A>foo&gt;</A>"},
	{"js", "function*it(){yield <a></a>}"},
	{"js", "<A>foo}</A>"},
	{"js", "<A>foo></A>"},
	{"js", "<LeftRight left=<a /> right=<b>monkeys /> gorillas</b> />"},
	{"js", "<>{tips.map((tip, i) => <div key={i}>{`Tip ${i}:` + tip}</div>)}</>"},
	{"js", "<div>\n  <h1>Hello</h1>\n</div>;"},
	{"js", "({a} &&= b)"},
	{"js", "({a} ||= b)"},
	{"js", "({a} ??= b)"},
	{"js", "a ?? b"},
	{"js", "?? b"},
	{"js", "a ??"},
	{"js", "a || b ?? c"},
	{"js", "a && b ?? c"},
	{"js", "a ?? b || c"},
	{"js", "a ?? b && c"},
	{"js", "a+1 || b+1 ?? c"},
	{"js", "a+1 && b+1 ?? c"},
	{"js", "a+1 ?? b+1 || c"},
	{"js", "a+1 ?? b+1 && c"},
	{"js", "a ?? b ?? c"},
	{"js", "a | b ?? c | d"},
	{"js", "a ?? b ? c : d"},
	{"js", "(a || b) ?? c"},
	{"js", "a || (b ?? c)"},
	{"js", "(a && b) ?? c"},
	{"js", "a && (b ?? c)"},
	{"js", "(a ?? b) || c"},
	{"js", "a ?? (b || c)"},
	{"js", "(a ?? b) && c"},
	{"js", "a ?? (b && c)"},
	{"js", "123_456"},
	{"js", "123__456"},
	{"js", "0._123456"},
	{"js", "123456_"},
	{"js", "012_345"},
	{"js", "'\\x2_0'"},
	{"js", "'\\u00_20'"},
	{"js", "'\\u{2_0}'"},
	{"js", "0b_10"},
	{"js", "0b10_"},
	{"js", "0b10__10"},
	{"js", "0o_7"},
	{"js", "0o7_"},
	{"js", "0o7__07"},
	{"js", "0x_a"},
	{"js", "0xa_"},
	{"js", "0xa__a"},
	{"js", "123_456.123_456e+123_456"},
	{"js", "0b1010_0001"},
	{"js", "0xDEAD_BEAF"},
	{"js", "0o755_666"},
	{"js", "123_456n"},
	{"js", ".012_345"},
	{"js", "obj?.foo"},
	{"js", "obj?.[foo]"},
	{"js", "obj?.()"},
	{"js", "obj?.0"},
	{"js", "async?.() => {}"},
	{"js", "new obj?.()"},
	{"js", "new obj?.foo()"},
	{"js", "obj?.foo\n`template`"},
	{"js", "obj?.foo = 0"},
	{"js", "obj?.foo.bar = 0"},
	{"js", "obj?.().foo = 0"},
	{"js", "obj?.foo++"},
	{"js", "obj?.foo--"},
	{"js", "++obj?.foo"},
	{"js", "--obj?.foo"},
	{"js", "obj?.foo.bar++"},
	{"js", "for (obj?.foo in {});"},
	{"js", "for (obj?.foo.bar in {});"},
	{"js", "for (obj?.foo of []);"},
	{"js", "for (obj?.foo.bar of []);"},
	{"js", "obj ?. foo"},
	{"js", "obj ?. [foo]"},
	{"js", "obj ?. ()"},
	{"js", "obj?.0:.1"},
	{"js", "obj?.aaa?.bbb"},
	{"js", "obj?.aaa.bbb"},
	{"js", "(obj?.aaa)?.bbb"},
	{"js", "(obj?.aaa).bbb"},
	{"js", "(obj?.aaa.bbb).ccc"},
	{"js", "func?.()?.bbb"},
	{"js", "func?.().bbb"},
	{"js", "(func?.())?.bbb"},
	{"js", "(func?.()).bbb"},
	{"js", "obj?.aaa?.()"},
	{"js", "obj?.aaa()"},
	{"js", "(obj?.aaa)?.()"},
	{"js", "(obj?.aaa)()"},
	{"js", "delete obj?.foo"},
	{"js", "new (obj?.foo)()"},
	{"js", "(obj?.foo)`template`"},
	{"js", "(obj?.foo).bar = 0"},
	{"js", "(obj?.foo).bar++"},
	{"js", "for ((obj?.foo).bar of []);"},
	{"js", "(obj.foo.bar)?.buz"},
	{"js", "(obj.foo())?.buz"},
	{"js", "\n  1 + 2\n  "},
	{"js", "\n  null\n  "},
	{"js", "\n  undefined\n  "},
	{"js", "\n  1 + '2'\n  "},
	{"js", "\n  1 + 2 == 3\n  "},
	{"js", "\n  process.env.ENV\n  "},
	{"js", "\n  process['env']['ENV']\n  "},
	{"js", "\n  process['env']['ENV'] === 'development'\n  "},
	{"js", "\n  !(process['env']['ENV'] === 'development')\n  "},
	{"js", "\n  !process['not set']\n  "},
	{"js", "\n  true\n  "},
	{"js", "\n  process.env.ENV === 'development' || process.env.ENV === 'production'\n  "},
	{"js", "\n  [1, 2]\n  "},
	{"js", "\n  [1, 2][0] == 1\n  "},
	{"js", "\n  [1, 2][3] == null\n  "},
	{"js", "\n  [1, 2].includes(1)\n  "},
	{"js", "\n  [\"REG\", \"ONLINE\"].includes(process.env.ENV)\n  "},
	{"js", "\n  <div:a attr0 attr1={true}\n  attr2 = <b/> {...b}\n  >&CounterClockwiseContourIntegral;{<i>{a}</i>}t2\n  {...e}\n  </div:a>\n  "},
	{"js", "\n  <>&CounterClockwiseContourIntegral;{<i>{a}</i>}t2\n  {...e}\n  </>\n  "},
	{"js", "\n  <>&CounterClockwiseContourIntegral;{<i>{a}</i>}t2\n  {/* empty */}\n  {...e}\n  </>\n  "},
	{"js", "\n  <a></a>\n  "},
	{"js", "a + b - c"},
	{"js", "a + b * c"},
	{"js", "a * b + c"},
	{"js", "a ** b ** c"},
	{"js", "a > 0 ? a : b"},
	{"js", "a = a > 0 ? a : b"},
	{"js", "a[b][c]"},
	{"js", "a.b.c"},
	{"js", "a + void 0"},
	{"js", "a + ++b + c++"},
	{"js", "new new a"},
	{"js", "a()(c, b, ...a)"},
	{"js", "a(b).c"},
	{"js", "a('b')"},
	{"js", "a[b][c]()[d][e]()"},
	{"js", "var a = 1"},
	{"js", "var [a, b = 1, [c] = 1, [d = 1]] = e"},
	{"js", "var [a, , b, , , c, ,] = e"},
	{"js", "[a, , b, , , c, ,]"},
	{"js", "var a = {...a, b, ...c, \"d\": 1, [e]: {f: 1}, ...g}"},
	{"js", "\n  var o = {\n    a,\n    [b] () {},\n    c,\n    e: () => {},\n  }\n  "},
	{"js", "\n  function a({ b }) {}\n  "},
	{"js", "\n  let a = function a({ b }) {}\n  "},
	{"js", "\n  async function a({ b }) {}\n  "},
	{"js", "\n  a = () => {}\n  "},
	{"js", "\n  do {} while(1)\n  "},
	{"js", "\n  while(1) {}\n  "},
	{"js", "\n  for(;;) {}\n  "},
	{"js", "\n  for (a in b) {}\n  "},
	{"js", "\n  for (a of b) {}\n  for await (a of b) {}\n  "},
	{"js", "\n  if (a) {} else b\n  if (c) {}\n  "},
	{"js", "\n\x09switch (a) {\n\x09}\n\x09"},
	{"js", "\n  switch (a) {\n    case b in c:\n      d\n      e\n    case f:\n    default:\n  }\n  "},
	{"js", "\n  switch (a) {\n    case b in c:\n      d\n      e\n    default:\n    case f:\n  }\n  "},
	{"js", "\n  while(true) break\n  "},
	{"js", "\n  a: while(true) break a;\n  "},
	{"js", "\n  while(true) continue\n  "},
	{"js", "\n  a: while(true) continue a;\n  "},
	{"js", "\n  a:\n  b\n  c\n  "},
	{"js", "\n  a: b\n  c\n  "},
	{"js", "\n  function a() { return a }\n  "},
	{"js", "\n  function a() {\n    return\n    a\n  }\n  "},
	{"js", "\n  throw a\n  "},
	{"js", "\n  throw\n  a\n  "},
	{"js", "\n  try {} catch(e) {} finally {}\n  "},
	{"js", "\n  try {} finally {}\n  "},
	{"js", "\n  try {}\n  "},
	{"js", "\n  a\n  debugger\n  b\n  "},
	{"js", "\n  ;a;;\n  ;\n  "},
	{"js", "\n  class a {}\n  "},
	{"js", "\n  class a {\n    #f1\n  }\n  "},
	{"js", "\n  class a {\n    [a] (b) {\n      c\n    }\n\n    e\n    #f () {}\n  }\n  "},
	{"js", "\n  a = (b, c)\n  "},
	{"js", "\n  a = class {};\n  "},
	{"js", "\n  a = /a/\n  "},
	{"js", "\n  a = (b)\n  "},
	{"js", "tag`\na${b}c`"},
	{"js", "tag`\na${ f`g\n${d}e` }c`"},
	{"js", "tag`\na${b}c`[d]"},
	{"js", "class a extends b { constructor() { super() } }"},
	{"js", "a = import(b)"},
	{"js", "function a () {}"},
	{"js", "\nLabelA: for (;;) {\n  break LabelA;\n}\n  "},
	{"js", "\nLabelA: for (;;) {\n  for (;;) {\n    continue LabelA;\n  }\n}\n  "},
	{"js", "\nLabelA: for (;;) {\n  LabelB: for (;;) {\n    continue LabelB;\n  }\n}\n  "},
	{"js", "\nLabelA: for (;;) {\n  break;\n}\n  "},
	{"js", "{"},
	{"js", "}"},
	{"js", "3ea"},
	{"js", "3in []"},
	{"js", "3e"},
	{"js", "3e+"},
	{"js", "3e-"},
	{"js", "3x"},
	{"js", "3x0"},
	{"js", "0x"},
	{"js", "'use strict'; 09"},
	{"js", "01a"},
	{"js", "3in[]"},
	{"js", "0x3in[]"},
	{"js", "\"Hello\nWorld\""},
	{"js", "x\\"},
	{"js", "x\\u005c"},
	{"js", "/"},
	{"js", "/test"},
	{"js", "var x = /[a-z]/\\ux"},
	{"js", "3 = 4"},
	{"js", "func() = 4"},
	{"js", "(1 + 1) = 10"},
	{"js", "1++"},
	{"js", "1--"},
	{"js", "++1"},
	{"js", "--1"},
	{"js", "for((1 + 1) in list) process(x);"},
	{"js", "["},
	{"js", "[,"},
	{"js", "1 + {"},
	{"js", "1 + { t:t "},
	{"js", "1 + { t:t,"},
	{"js", "var x = /\n/"},
	{"js", "var x = \"\n"},
	{"js", "var if = 42"},
	{"js", "i + 2 = 42"},
	{"js", "+i = 42"},
	{"js", "1 + ("},
	{"js", "\n\n\n{"},
	{"js", "\n/* Some multiline\ncomment */\n)"},
	{"js", "{ set 1 }"},
	{"js", "{ get 2 }"},
	{"js", "({ set: s(if) { } })"},
	{"js", "({ set s(.) { } })"},
	{"js", "({ set: s() { } })"},
	{"js", "({ set: s(a, b) { } })"},
	{"js", "({ get: g(d) { } })"},
	{"js", "'use strict'; ({ __proto__: 1, __proto__: 2 })"},
	{"js", "function t(...) { }"},
	{"js", "function t(...rest,) { }"},
	{"js", "function t(...rest, b) { }"},
	{"js", "function t(if) { }"},
	{"js", "function t(false) { }"},
	{"js", "function t(true) { }"},
	{"js", "function t(null) { }"},
	{"js", "function true() { }"},
	{"js", "function false() { }"},
	{"js", "function if() { }"},
	{"js", "a b;"},
	{"js", "if.a;"},
	{"js", "a if;"},
	{"js", "a class;"},
	{"js", "break\n"},
	{"js", "break 1;"},
	{"js", "continue\n"},
	{"js", "continue 2;"},
	{"js", "throw"},
	{"js", "throw;"},
	{"js", "for (var i, i2 in {});"},
	{"js", "for ((i in {}));"},
	{"js", "for (i + 1 in {});"},
	{"js", "for (+i in {});"},
	{"js", "if(false)"},
	{"js", "if(false) doThis(); else"},
	{"js", "do"},
	{"js", "while(false)"},
	{"js", "for(;;)"},
	{"js", "with(x)"},
	{"js", "try { }"},
	{"js", "\xe2\x80\xbf = 10"},
	{"js", "if(true) let a = 1;"},
	{"js", "switch (c) { default: default: }"},
	{"js", "new X().\"s\""},
	{"js", "/*"},
	{"js", "/*\n\n\n"},
	{"js", "/**"},
	{"js", "/*\n\n*"},
	{"js", "/*hello"},
	{"js", "/*hello  *"},
	{"js", "\n]"},
	{"js", "\x0d]"},
	{"js", "\x0d\n]"},
	{"js", "\n\x0d]"},
	{"js", "//\x0d\n]"},
	{"js", "//\n\x0d]"},
	{"js", "/a\\\n/"},
	{"js", "//\x0d \n]"},
	{"js", "/*\x0d\n*/]"},
	{"js", "/*\n\x0d*/]"},
	{"js", "/*\x0d \n*/]"},
	{"js", "\\\\"},
	{"js", "\\u005c"},
	{"js", "\\x"},
	{"js", "\\u0000"},
	{"js", "\xe2\x80\x8c = []"},
	{"js", "\xe2\x80\x8d = []"},
	{"js", "\"\\"},
	{"js", "\"\\u"},
	{"js", "return"},
	{"js", "break"},
	{"js", "continue"},
	{"js", "switch (x) { default: continue; }"},
	{"js", "do { x } *"},
	{"js", "while (true) { break x; }"},
	{"js", "while (true) { continue x; }"},
	{"js", "x: while (true) { (function () { break x; }); }"},
	{"js", "x: while (true) { (function () { continue x; }); }"},
	{"js", "x: while (true) { (function () { break; }); }"},
	{"js", "x: while (true) { (function () { continue; }); }"},
	{"js", "x: while (true) { x: while (true) { } }"},
	{"js", "(function () { 'use strict'; delete i; }())"},
	{"js", "function x() { '\\12'; 'use strict'; }"},
	{"js", "function hello() {'use strict'; var eval = 10; }"},
	{"js", "function hello() {'use strict'; var arguments = 10; }"},
	{"js", "function hello() {'use strict'; try { } catch (arguments) { } }"},
	{"js", "function hello() {'use strict'; eval = 10; }"},
	{"js", "function hello() {'use strict'; arguments = 10; }"},
	{"js", "function hello() {'use strict'; ++eval; }"},
	{"js", "function hello() {'use strict'; --eval; }"},
	{"js", "function hello() {'use strict'; ++arguments; }"},
	{"js", "function hello() {'use strict'; --arguments; }"},
	{"js", "function hello() {'use strict'; eval++; }"},
	{"js", "function hello() {'use strict'; eval--; }"},
	{"js", "function hello() {'use strict'; arguments++; }"},
	{"js", "function hello() {'use strict'; arguments--; }"},
	{"js", "function hello() {'use strict'; function eval() { } }"},
	{"js", "function hello() {'use strict'; function arguments() { } }"},
	{"js", "function eval() {'use strict'; }"},
	{"js", "function arguments() {'use strict'; }"},
	{"js", "function hello() {'use strict'; (function eval() { }()) }"},
	{"js", "function hello() {'use strict'; (function arguments() { }()) }"},
	{"js", "(function eval() {'use strict'; })()"},
	{"js", "(function arguments() {'use strict'; })()"},
	{"js", "function hello() {'use strict'; ({ s: function eval() { } }); }"},
	{"js", "(function package() {'use strict'; })()"},
	{"js", "function hello() {'use strict'; ({ i: 10, set s(eval) { } }); }"},
	{"js", "function hello() {'use strict'; ({ set s(eval) { } }); }"},
	{"js", "function hello() {'use strict'; ({ s: function s(eval) { } }); }"},
	{"js", "function hello(eval) {'use strict';}"},
	{"js", "function hello(arguments) {'use strict';}"},
	{"js", "function hello() { 'use strict'; function inner(eval) {} }"},
	{"js", "function hello() { 'use strict'; function inner(arguments) {} }"},
	{"js", "function hello() { 'use strict'; \"\\1\"; }"},
	{"js", "function hello() { 'use strict'; \"\\00\"; }"},
	{"js", "function hello() { 'use strict'; \"\\000\"; }"},
	{"js", "function hello() { 'use strict'; 021; }"},
	{"js", "function hello() { 'use strict'; ({ \"\\1\": 42 }); }"},
	{"js", "function hello() { 'use strict'; ({ 021: 42 }); }"},
	{"js", "function hello() { \"use strict\"; function inner() { \"octal directive\\1\"; } }"},
	{"js", "function hello() { \"use strict\"; var implements; }"},
	{"js", "function hello() { \"use strict\"; var interface; }"},
	{"js", "function hello() { \"use strict\"; var package; }"},
	{"js", "function hello() { \"use strict\"; var private; }"},
	{"js", "function hello() { \"use strict\"; var protected; }"},
	{"js", "function hello() { \"use strict\"; var public; }"},
	{"js", "function hello() { \"use strict\"; var static; }"},
	{"js", "function hello(static) { \"use strict\"; }"},
	{"js", "function static() { \"use strict\"; }"},
	{"js", "\"use strict\"; function static() { }"},
	{"js", "function a(t, t) { \"use strict\"; }"},
	{"js", "function a(eval) { \"use strict\"; }"},
	{"js", "function a(package) { \"use strict\"; }"},
	{"js", "function a() { \"use strict\"; function b(t, t) { }; }"},
	{"js", "(function a(t, t) { \"use strict\"; })"},
	{"js", "function a() { \"use strict\"; (function b(t, t) { }); }"},
	{"js", "(function a(eval) { \"use strict\"; })"},
	{"js", "(function a(package) { \"use strict\"; })"},
	{"js", "\"use strict\";function foo(){\"use strict\";}function bar(){var v = 015}"},
	{"js", "var this = 10;"},
	{"js", "throw\n10;"},
	{"js", "const a;"},
	{"js", "({ get prop(x) {} })"},
	{"js", "({ set prop() {} })"},
	{"js", "({ set prop(x, y) {} })"},
	{"js", "function(){}"},
	{"js", "07.5"},
	{"js", "\\u{74}rue"},
	{"js", "export { X \\u0061s Y }"},
	{"js", "import X fro\\u006d 'x'"},
	{"js", "le\\u0074 x = 5"},
	{"js", "(function* () { y\\u0069eld 10 })"},
	{"js", "(async function() { aw\\u0061it x })"},
	{"js", "(\\u0061sync function() { await x })"},
	{"js", "(\\u0061sync () => { await x })"},
	{"js", "\\u0061sync x => { await x }"},
	{"js", "class X { \\u0061sync function x() { await x } }"},
	{"js", "class X { \\u0061sync x() { await x } }"},
	{"js", "class X { static \\u0061sync x() { await x } }"},
	{"js", "({ ge\\u0074 x() {} })"},
	{"js", "export \\u0061sync function y() { await x }"},
	{"js", "export default \\u0061sync function () { await x }"},
	{"js", "({ \\u0061sync x() { await x } })"},
	{"js", "for (x \\u006ff y) {}"},
	{"js", "(x=1)=2"},
	{"js", "let foo; try {} catch (foo) {} let foo;"},
	{"js", "try {} catch (foo) { let foo; }"},
	{"js", "try {} catch ([foo]) { var foo; }"},
	{"js", "try {} catch ([foo, foo]) {}"},
	{"js", "try {} catch ({ a: foo, b: { c: [foo] } }) {}"},
	{"js", "try {} catch (foo) { function foo() {} }"},
	{"js", "\xc2\xbd"},
	{"js", "\"use strict\"\nfoo\n05"},
	{"js", "\"use strict\"\n;(foo)\n05"},
	{"js", "'use strict'\n!blah; 05"},
	{"js", "var x = /[P QR]/\\u0067"},
	{"js", "let a = () => { 'use strict'; delete i; }"},
	{"js", "let a = () => { '\\12'; 'use strict'; }"},
	{"js", "(function () { 'use strict'; with (i); }())"},
	{"js", "let hello = () => {'use strict'; var eval = 10; }"},
	{"js", "let hello = () => {'use strict'; try { } catch (eval) { } }"},
	{"js", "let a = (t, t) => { \"use strict\"; }"},
	{"js", "let a = ({ t }) => { \"use strict\"; }"},
	{"js", "class { a = 1 }"},
	{"js", "function a(1) {}"},
	{"js", "function a([ a = { b = 1 } ]) {}"},
	{"js", "let a = ([ a = { b = 1 } ]) => {}"},
	{"js", "let a = ([ a = { b: { c = 1 } } ]) => {}"},
	{"js", "class c { f([ a = { b = 1 } ]) {} }"},
	{"js", "({...})"},
	{"js", "let {...obj1,} = foo"},
	{"js", "let {...obj1,a} = foo"},
	{"js", "let {...obj1,...obj2} = foo"},
	{"js", "let {...(obj)} = foo"},
	{"js", "let {...(a,b)} = foo"},
	{"js", "let {...{a,b}} = foo"},
	{"js", "let {...[a,b]} = foo"},
	{"js", "({...obj1,} = foo)"},
	{"js", "({...obj1,a} = foo)"},
	{"js", "({...obj1,...obj2} = foo)"},
	{"js", "({...(a,b)} = foo)"},
	{"js", "({...{a,b}} = foo)"},
	{"js", "({...[a,b]} = foo)"},
	{"js", "({...(obj)}) => {}"},
	{"js", "({...(a,b)}) => {}"},
	{"js", "({...{a,b}}) => {}"},
	{"js", "({...[a,b]}) => {}"},
	{"js", "({get x() {}}) => {}"},
	{"js", "let {...x, ...y} = {}"},
	{"js", "({...x,}) => z"},
	{"js", "function ({...x,}) { z }"},
	{"js", "let {...{x, y}} = {}"},
	{"js", "let {...{...{x, y}}} = {}"},
	{"js", "0, {...rest, b} = {}"},
	{"js", "(({a, ...b = 0}) => {})"},
	{"js", "export const { foo, ...bar } = baz;\nexport const bar = 1;\n"},
	{"js", "`\\unicode`"},
	{"js", "`\\u`"},
	{"js", "`\\u{`"},
	{"js", "`\\u{abcdx`"},
	{"js", "`\\u{abcdx}`"},
	{"js", "`\\xylophone`"},
	{"js", "foo`\\unicode"},
	{"js", "foo`\\unicode\\`"},
	{"js", "(...a,) => a"},
	{"js", "function foo(...a,) { }"},
	{"js", "(function(...a,) { })"},
	{"js", "async (...a,) => a"},
	{"js", "({foo(...a,) {}})"},
	{"js", "class A {foo(...a,) {}}"},
	{"js", "class A {static foo(...a,) {}}"},
	{"js", "export default function foo(...a,) { }"},
	{"js", "export default (function foo(...a,) { })"},
	{"js", "export function foo(...a,) { }"},
	{"js", "function foo(,) { }"},
	{"js", "(function(,) { })"},
	{"js", "(,) => a"},
	{"js", "async (,) => a"},
	{"js", "({foo(,) {}})"},
	{"js", "class A {foo(,) {}}"},
	{"js", "class A {static foo(,) {}}"},
	{"js", "(class {foo(,) {}})"},
	{"js", "(class {static foo(,) {}})"},
	{"js", "export default function foo(,) { }"},
	{"js", "export default (function foo(,) { })"},
	{"js", "export function foo(,) { }"},
	{"js", "(a,)"},
	{"js", "foo`\\xylophone`"},
	{"js", "LabelA: let a = 0"},
	{"js", "\nLabelA: a = 1\n\nfor (;;) {\n  continue LabelA;\n}\n"},
	{"js", "\nLabelA: LabelB: for (;;) {\n  LabelA: b = 1;\n  break LabelA;\n}\n"},
	{"js", "\nLabelA: LabelB: for (;;) {\n  LabelB: b = 1;\n  break LabelA;\n}\n"},
	{"js", "\nfunction a() {\n}\n  "},
	{"js", "\nfunction a() {\n  function b() {\n  }\n}\n  "},
	{"js", "\n{\n  {\n  }\n}\n  "},
	{"js", "\nwhile(1) {\n  let a = 1\n}\n  "},
	{"js", "\nlet a = () => {\n  let b = 1\n}\n  "},
	{"js", "\nfunction a() {\n  let c = 1\n  function b() {\n    let d = 1\n  }\n}\n  "},
	{"js", "\nfor(let a = 1;;){}\n  "},
	{"js", "\nswitch(1) {\n  case 1: let a = 1\n  case 2: console.log(a)\n}\n  "},
	{"js", "\nswitch(1) {\n  case 1: { let a = 1 }\n  case 2: console.log(a)\n}\n  "},
	{"js", "\ndo {\n  let a = 1\n} while(1)\n  "},
	{"js", "\ntry {\n  let a = 1\n} catch(e) {\n  let b = 2\n} finally {\n  let c = 3\n}\n  "},
	{"js", "\nclass A {\n  f(a){\n    let b\n  }\n}\n  "},
	{"js", "\n/* 1 */\nlet a, b;\n\n/* 2 */\nconsole.log(a == b); /* 3 */\n\n/* 4 */ /* 5 */\n\nconsole.log(a == b); /* 6 */\n/* 7 */\n  "},
	{"js", "import(\n  /* webpackChunkName: \"share\" */\n  \"lib\"\n).then(() => {}) + 1;\n"},
	{"js", "LabelA: a = 1"},
	{"js", "LabelA: {\n  LabelA: b = 1;\n}"},
	{"js", "LabelA: for (;;) {\n  LabelA: b = 1;\n  break LabelA;\n}"},
	{"js", "LabelA: LabelB: for (;;) {\n  b = 1;\n  break LabelA;\n}"},
	{"js", "LabelA: LabelA: a = 2"},
	{"js", "LabelA: a = 1\nLabelA: a = 2"},
	{"js", "LabelA: a = 1; LabelA: a = 2"},
	{"js", "LabelA:  for (;;) {\n  LabelB: b = 1;\n  break LabelB;\n}"},
	{"js", "LabelB: b = 1;\nLabelA:  for (;;) {\n  break LabelB;\n}"},
	{"js", "var INTERNAL_COMPONENT_ID_PREFIX = '\\0_ec_\\0'"},
	{"js", "a = b\n/ det * dest[i]"},
	{"js", "switch(a) {\n  case 1: {\n    doSth1(); break;\n  }\n  default: doSthDefault();\n  case 2: doSth2();\n  case 3: doSth3();\n}"},
	{"js", "\"use strict\";\nfunction f(parent) {\n  var parent = parent\n}"},
	{"js", "async function* generate(stream, boundary, options) {\n  outer: for await (const chunk of stream) {\n    is_eager ? yield tmp : payloads.push(tmp);\n  }\n}\n"},
	{"js", "[...a,];"},
	{"js", "var [...{length}] = [ 1, 2, 3];"},
	{"ts", "(x: number): number => x;"},
	{"ts", "async (f)\n: t => { }"},
	{"ts", "// https://github.com/babel/babel/issues/11038\n0 ? v => (sum += v) : v => 0;"},
	{"ts", "0 ? v => (sum = v) : v => 0;\n"},
	{"ts", "0 ? v => (sum = v) : v => 0 : v => 0;"},
	{"ts", "0 ? v => (...rest) : v => 0 : v => 0;"},
	{"ts", "async (x?: number): any => x;"},
	{"ts", "4 + async<number>() => 2"},
	{"ts", "async <T>() => await null;"},
	{"ts", "async () => {\n  await null;\n  async <T>() => null;\n};"},
	{"ts", "async < 1;\nasync<T>() == 0;"},
	{"ts", "async (...args: any[]) : any => {}"},
	{"ts", "async(...args?: any[]) : any => {}"},
	{"ts", "(x: number = 0) => 0;"},
	{"ts", "({ a = 0 }) => 0;"},
	{"ts", "(\n  { a, b }: T,\n): T => {};"},
	{"ts", "<T>(a: T): T => a;"},
	{"ts", "(x?: number): any => x;\n((k?) => k + 1)();"},
	{"ts", "(x: any): x is string => true;"},
	{"ts", "const assert1 = (value: unknown): asserts value is string => {}\nconst assert2 = (value: unknown): asserts value => {}\nconst assert3 = (value: unknown): asserts => {}"},
	{"ts", "declare function assertIsString(value: unknown): asserts;"},
	{"ts", "class C {\n  m(): asserts this {};\n}"},
	{"ts", "class Foo {\n  isBar(): asserts this is Foo {}\n  isBaz = (): asserts this is Foo => {}\n}"},
	{"ts", "declare function assertIsString(value: unknown): asserts value;"},
	{"ts", "class C {\n  assertIsString(value: unknown): asserts value is string {}\n}"},
	{"ts", "declare function assertIsString(value: unknown): asserts value is string;"},
	{"ts", "function asserts1 (value: unknown): asserts value is string {} \nfunction asserts2 (value: unknown): asserts value {}\nfunction asserts3 (value: unknown): asserts {}"},
	{"ts", "function assert(condition: any):\nasserts condition {}"},
	{"ts", "declare function assertIsString(value: unknown): \\u{61}sserts value;"},
	{"ts", "({}) = x"},
	{"ts", "async(x?)"},
	{"tsx", "export default function HomePage() {\n  const videoRef = useRef<any>();\n\n  useEffect(() => {\n    timerRef.current = setTimeout(() => {\n      setFold(true);\n    }, 5000);\n  }, []);\n}\n"},
	{"tsx", "const { pod, app, env } = useParams<{ pod: string; app: string; env: string }>();"},
	{"ts", "async (a as T) => {};"},
	{"ts", "async (<T> a) => {};"},
	{"ts", "var asserted1 = <any>((n) => { return n; });"},
	{"ts", "(a as T) => {};"},
	{"ts", "(<T> a) => {};"},
	{"ts", "x as T;\nx < y as boolean; // (x < y) as boolean;\nx as boolean <= y; // (x as boolean) <= y;\nx === 1 as number; // x === (1 as number);\nx as any as T;\nx as boolean ?? y; // (x as boolean) ?? y;"},
	{"ts", "// Copied over from TypeScript's test case\n// https://github.com/Microsoft/TypeScript/blob/master/tests/baselines/reference/constAssertions.js\nlet v1 = 'abc' as const;\nlet v2 = `abc` as const;\nlet v3 = 10 as const;\nlet v4 = -10 as const;\nlet v5 = +10 as const;\nlet v6 = 10 as const;\nlet v7 = -10 as const;\nlet v8 = true as const;\nlet v9 = false as const;\n\nlet a1 = [] as const;\nlet a2 = [1, 2, 3] as const;\nlet a3 = [10, 'hello', true] as const;\nlet a4 = [...[1, 2, 3]] as const;\nlet a5 = [1, 2, 3];\nlet a6 = [...a5] as const;\nlet a8 = ['abc', ...a7] as const;\n\nlet o1 = { x: 10, y: 20 } as const;\nlet o2 = { a: 1, 'b': 2, ['c']: 3, d() {}, ['e' + '']: 4 } as const;\nlet o3 = { ...o1, ...o2 } as const;\nlet o5 = { ...o4 } as const;\nlet o7 = { ...d } as const;\nlet o9 = { x: 10, foo() { this.x = 20 } } as const;  // Error\n\nlet p1 = (10) as const;\nlet p2 = ((-10)) as const;\nlet p3 = ([(10)]) as const;\nlet p4 = [[[[10]]]] as const;\n\nlet x1 = { x: 10, y: [20, 30], z: { a: { b: 42 } } } as const;\n\nlet q1 = <const> 10;\nlet q2 = <const> 'abc';\nlet q3 = <const> true;\nlet q4 = <const> [1, 2, 3];\nlet q5 = <const> { x: 10, y: 20 };"},
	{"ts", "(a as number) = 42;\n({ a: (b as any) = 2000 } = x);"},
	{"ts", "[a as number] = [42];\n[<number>a] = [42];"},
	{"ts", "f(x < 0, /a/);"},
	{"ts", "(a:b);"},
	{"ts", "(a:b,c:d);"},
	{"ts", "[a:b];"},
	{"ts", "[a:b, c:d];"},
	{"ts", "(a as number as any) = 42;"},
	{"ts", "(<T> x).y;\n(x as T).y;\nx!.y;"},
	{"ts", "((a as any) as string) = null"},
	{"ts", "x!;"},
	{"ts", "x! / 2"},
	{"ts", "const x = foo()!;"},
	{"ts", "x! += 1;"},
	{"ts", "x! *= 1"},
	{"tsx", "x.v! < y.v!;"},
	{"ts", "a\n!b"},
	{"ts", "x!.y;"},
	{"ts", "func(a: T);"},
	{"ts", "func<T>(a: T);"},
	{"ts", "(a as number) = 42;"},
	{"ts", "(a as any) = null"},
	{"ts", "(x!) = null;"},
	{"ts", "(<number>x) = null"},
	{"ts", "<number> 1;"},
	{"ts", "1 + <number> 1;"},
	{"ts", "(<number> x) += 1;"},
	{"ts", "<number> 1 + 1;"},
	{"ts", "foo as any = 10;"},
	{"ts", "({ a: b as any = 2000 } = x);"},
	{"ts", "<string>foo = '100';"},
	{"ts", "try {} catch (ex) {}\ntry {} catch (ex: unknown) {}\ntry {} catch (ex: any) {}\n\n// The following can't be error'd at parse time\ntry {} catch (ex: A) {}\ntry {} catch (ex: Error) {}\ntry {} catch (ex: string) {}\ntry {} catch (ex: string | number) {}"},
	{"ts", "abstract class C1 {}\ndeclare abstract class C2 {}\nexport abstract class C3 {}\nexport default abstract class { }"},
	{"ts", "export default abstract class C4 { }"},
	{"ts", "export default abstract class C5 { abstract foo(): void; }"},
	{"ts", "// Exports an identifier, doesn't try parsing `abstract class`\nexport default abstract;"},
	{"ts", "class Foo {\n  abstract method();\n}"},
	{"ts", "abstract class Foo {\n  method() {\n    return class {\n      abstract m();\n    }\n  }\n}"},
	{"ts", "abstract class C { p = class { abstract method() } }"},
	{"ts", "abstract class Foo {\n  abstract method() {}\n}"},
	{"ts", "abstract class Foo {\n  abstract [foo()]() {}\n}"},
	{"ts", "abstract\nclass B {}"},
	{"ts", "abstract class Foo {\n  abstract prop = 1\n}"},
	{"ts", "abstract class Foo {\n  abstract [Bar.foo] = 2\n}"},
	{"ts", "abstract class Foo {\n  abstract [Bar] = 3\n}"},
	{"ts", "abstract class Foo {\n  abstract 2 = 4\n}"},
	{"ts", "abstract class Foo {\n  abstract \"c\" = 5\n}"},
	{"ts", "class A {\n  async?(): void\n  async?: boolean\n}"},
	{"ts", "class A extends B {\n  async method?(val: string): Promise<void>;\n}"},
	{"ts", "class C {\n    constructor(x: number, y: number);\n    constructor(x: string, y: string);\n    constructor(x: any, y: any) {}\n}"},
	{"ts", "class D extends B {\n  constructor(readonly override foo: string) {}\n}"},
	{"ts", "class D extends B {\n  constructor(readonly public foo: string) {}\n}"},
	{"ts", "class D extends B {\n  constructor(override readonly public foo: string) {}\n}\n"},
	{"ts", "class Foo {\n  constructor(set, readonly) {}\n}"},
	{"ts", "class Foo {\n  constructor(set: any, readonly: boolean) {}\n}"},
	{"ts", "class D extends B {\n  constructor(override foo: string) {\n    super(foo);\n  }\n}"},
	{"ts", "class C {\n  constructor<T>(foo: T) {}\n}"},
	{"ts", "declare class C {\n    [x: string]: any;\n    x;\n    x: number;\n    f();\n    f(): void;\n}"},
	{"ts", "class Foo {\n  declare get foo()\n}\n"},
	{"ts", "class Foo {\n  declare set foo(v)\n}\n"},
	{"ts", "class A {\n  declare foo;\n  declare bar: string;\n}"},
	{"ts", "class A {\n  declare bar: string = \"test\";\n}\n"},
	{"ts", "class A {\n  declare static foo;\n  static declare foo0: string;\n\n  declare public foo1;\n  public declare foo2;\n\n  declare public static foo4;\n  public declare static foo3;\n  public static declare foo5;\n}"},
	{"ts", "class C {\n  declare get: string\n  declare set: string;\n}"},
	{"ts", "declare class C {\n  field = \"field\";\n}\n"},
	{"ts", "class A {\n  declare foo() {}\n}"},
	{"ts", "declare\nclass B {}"},
	{"ts", "declare abstract\nclass A {}"},
	{"ts", "class A {\n  declare public declare foo;\n}"},
	{"ts", "class A {\n  declare public static declare foo;\n}"},
	{"ts", "class Foo {\n  public public a;\n}"},
	{"ts", "class Foo {\n  private public b;\n}"},
	{"ts", "class Foo {\n  protected private c;\n}"},
	{"ts", "class Foo {\n  public protected d;\n}"},
	{"ts", "class Foo {\n  public protected private e;\n}"},
	{"ts", "class C<> {}\n"},
	{"ts", "(class extends f()<T> {});\n(class C extends f()<T> {});"},
	{"ts", "(class extends f()<T> implements X.Y<T> {});\n(class C extends f()<T> implements X.Y<T> {});"},
	{"ts", "(class<T> {});\n(class C<T> {});"},
	{"ts", "(class implements X.Y<T> {});\n(class C implements X.Y<T> {});"},
	{"ts", "class C extends f()<T> {}"},
	{"ts", "interface foo extends {\n}"},
	{"ts", "class C extends f()<T> implements X.Y<T> {}"},
	{"ts", "class Foo extends Bar implements {\n}"},
	{"ts", "class C {\n  abstract *d()\n}"},
	{"ts", "abstract class C {\n  abstract *d() {}\n}"},
	{"ts", "class C<T extends object = { x: number }> {}"},
	{"ts", "declare class C {\n    get<T>(): void;\n}"},
	{"ts", "class C implements X.Y<T> {}"},
	{"ts", "class Foo implements {\n}"},
	{"ts", "class C {\n    [x: string]: any;\n    readonly [x: string]: any;\n    static [x: string]: any;\n    static readonly [x: string]: any;\n}"},
	{"ts", "class C {\n    readonly static [x: string]: any;\n}\n"},
	{"ts", "class Foo extends Bar {\n  override private foo1: string\n}\n"},
	{"ts", "class Foo extends Bar {\n  readonly private foo2: string;\n}\n"},
	{"ts", "class Foo extends Bar {\n  readonly private override foo3: string;\n}\n"},
	{"ts", "class Foo extends Bar {\n  private readonly override foo4: string;\n}\n"},
	{"ts", "class C {\n    public(): void;\n    public static(): void;\n    readonly = 0;\n    async<T>(): void;\n    abstract!:void;\n}"},
	{"ts", "class C {\n    public delete(): void;\n}"},
	{"ts", "class C {\n    [Symbol.iterator](): void;\n    [Symbol.iterator]?(): void;\n}"},
	{"ts", "class C {\n    f<T>(a: T, b?: T, ...c: T[]): T {}\n    [Symbol.iterator]<T>(): T {}\n}"},
	{"ts", "class C {\n  declare<T>() {}\n  readonly<T>() {}\n  abstract<T>() {}\n  static<T>() {}\n  private<T>() {}\n  public<T>() {}\n  protected<T>() {}\n}"},
	{"ts", "class C {\n    f();\n    f(): void;\n}"},
	{"ts", "class C {\n    m?(): void {}\n}"},
	{"ts", "class C {\n    readonly m() {}\n}"},
	{"ts", "class C {\n    f(): void {}\n}"},
	{"ts", "class C {\n  public\n  private() {}\n}"},
	{"ts", "class C\n{\n    m()\n    {\n    }\n}"},
	{"ts", "class C\n{\n    m()\n    n()\n}"},
	{"ts", "class Foo {\n  constructor(private, public, static) {\n  }\n}"},
	{"ts", "class Foo {\n  constructor(private, static) {\n  }\n}"},
	{"ts", "// Copy of modifiers-methods with 'get'\nabstract class C {\n    abstract get a();\n    static get s() { return 0; }\n    public abstract get pua();\n    public static get pus() { return 0; }\n\n    public get pu() { return 0; }\n    protected get po() { return 0; }\n    private get pi() { return 0; }\n}"},
	{"ts", "abstract class A extends Base {\n  static abstract m1();\n  abstract static m1();\n}"},
	{"ts", "abstract class A extends Base {\n  declare override prop1: any;\n}"},
	{"ts", "abstract class A extends Base {\n  override declare prop2: any;\n}"},
	{"ts", "class C {\n  abstract [key: string]: string;\n}"},
	{"ts", "class C {\n  declare [key: string]: string;\n}"},
	{"ts", "class C {\n  private [key: string]: string;\n}"},
	{"ts", "class C {\n  protected [key: string]: string;\n}"},
	{"ts", "class C {\n  public [key: string]: string;\n}"},
	{"ts", "abstract class A extends B {\n  static override m1() {}\n  override static m2() {}\n}\n"},
	{"ts", "abstract class A extends B {\n  override readonly p4;\n  readonly override p3;\n}\n"},
	{"ts", "abstract class A extends B {\n  public override m5() {}\n  override public m6() {}\n}\n"},
	{"ts", "abstract class A extends B {\n  protected override m7() {}\n  override protected m8() {}\n}\n"},
	{"ts", "abstract class A extends B {\n  private override m9() {}\n  override private m10() {}\n}\n"},
	{"ts", "abstract class A extends B {\n  abstract override m12();\n  override abstract m11();\n}\n"},
	{"ts", "abstract class A extends B {\n  public static m14() {}\n  static public m13() {}\n}\n"},
	{"ts", "abstract class A extends B {\n  protected static m16() {}\n  static protected m15() {}\n}\n"},
	{"ts", "abstract class A extends B {\n  private static m18() {}\n  static private m17() {}\n}\n"},
	{"ts", "// Copy of modifiers-methods with 'async'\nabstract class C {\n    abstract async a();\n    static async s() {}\n    public abstract async pua();\n    public static async pus() {}\n\n    public async pu() {}\n    protected async po() {}\n    private async pi() {}\n}"},
	{"ts", "class MyClass extends BaseClass {\n  override show() {}\n  public override show() {}\n  override size = 5;\n  override readonly size = 5;\n\n  override get text() {}\n  override set text(value) {}\n\n  override async fetch() {}\n\n  override [x] = 2\n  override [x]() {}\n}\n\ndeclare class DeclaredClass extends BaseClass {\n  override test() {}\n}"},
	{"ts", "class MyClass2 extends BaseClass {\n  override constructor() {}\n}"},
	{"ts", "class MyClass2 extends BaseClass {\n  override [x: string]: any;\n}"},
	{"ts", "class MyClass4 {\n  override prop: any\n}"},
	{"ts", "abstract class C {\n    readonly r;\n    readonly r2?: number;\n    abstract a;\n    static s;\n\n    public pu;\n    protected po;\n    private pi;\n\n    readonly abstract ra;\n    abstract readonly ar;\n    static readonly sr;\n\n    public readonly pur;\n    public abstract pua;\n    public static pus;\n    public readonly abstract pura;\n    public abstract readonly puar;\n    public static readonly pusr;\n}"},
	{"ts", "class B { }\nclass A extends B {\n    async? method(val: string): Promise<void>;\n}"},
	{"ts", "class C {\n    constructor(\n        readonly r,\n        public pu: number,\n        protected po?,\n        private pi?: number,\n        public readonly pur,\n        // Also works on AssignmentPattern\n        readonly x = 0,\n        public y?: number = 0) {}\n}"},
	{"ts", "class C {\n    constructor(public []) {}\n}\nclass D {\n    constructor(public {}) {}\n}"},
	{"ts", "class D {\n    constructor(public {}) {}\n}"},
	{"ts", "class C {\n    not_constructor(\n        readonly r,\n        public pu: number,\n        protected po?,\n        private pi?: number,\n        public readonly pur,\n        // Also works on AssignmentPattern\n        readonly x = 0,\n        public y?: number = 0) {}\n}"},
	{"ts", "class C {\n    not_constructor(\n        public pu: number,\n        protected po?,\n        private pi?: number,\n        public readonly pur,\n        // Also works on AssignmentPattern\n        readonly x = 0,\n        public y?: number = 0) {}\n}"},
	{"ts", "class C {\n    not_constructor(\n        protected po?,\n        private pi?: number,\n        public readonly pur,\n        // Also works on AssignmentPattern\n        readonly x = 0,\n        public y?: number = 0) {}\n}"},
	{"ts", "class C {\n    not_constructor(\n        private pi?: number,\n        public readonly pur,\n        // Also works on AssignmentPattern\n        readonly x = 0,\n        public y?: number = 0) {}\n}"},
	{"ts", "class C {\n    not_constructor(\n        public readonly pur,\n        // Also works on AssignmentPattern\n        readonly x = 0,\n        public y?: number = 0) {}\n}"},
	{"ts", "class C {\n    not_constructor(\n        // Also works on AssignmentPattern\n        readonly x = 0,\n        public y?: number = 0) {}\n}"},
	{"ts", "class C {\n    not_constructor(\n        public y?: number = 0) {}\n}"},
	{"ts", "class C {\n  constructor(@foo readonly x: number) {}\n  a(@bar x: number) {}\n}"},
	{"ts", "class Foo {\n  isBar(): this is string {\n  }\n  isBaz = (): this is string => {\n  }\n}"},
	{"ts", "class A {\n  #a: string;\n  #b?;\n  #c?: number;\n  #d!;\n  #e!: boolean;\n}"},
	{"ts", "abstract class A {\n  abstract #a;\n}"},
	{"ts", "class A {\n  private #a;\n}"},
	{"ts", "class A {\n  protected #a;\n}\n"},
	{"ts", "class A {\n  public #a;\n}"},
	{"ts", "class A {\n  readonly #a;\n  readonly #b: string;\n}"},
	{"ts", "class A {\n  static #x;\n  static #y: string;\n}"},
	{"ts", "class Test {\n  #f(x: string): number;\n  #f(x: number): string;\n  #f(x: string | number): string | number {\n    return (typeof x === 'string') ? parseInt(x) : x.toString();\n  }\n}"},
	{"ts", "class C {\n    x;\n    x?;\n    x: number;\n    x: number = 1;\n    x!;\n    x!: number;\n}"},
	{"ts", "class C {\n  x?!: number;\n}"},
	{"ts", "class C {\n    static f();\n    public static f();\n    protected static f();\n    private static f();\n}"},
	{"ts", "const x: number = 1;"},
	{"ts", "const b: const;"},
	{"ts", "declare const x: number, y: string;"},
	{"ts", "declare\nconst x: number = 1, y: string = 's';"},
	{"ts", "declare const { x, y }: { x: number, y: number };"},
	{"ts", "declare\nconst { x, y }: { x: number, y: number } = {};"},
	{"ts", "declare namespace hexRgb {}\ndeclare function hexRgb(hex: string): void;"},
	{"ts", "interface Options {\n  /**\n  The RGB output format.\n\n  Note that when using the `css` format, the value of the alpha channel is rounded to two decimal places.\n\n  @default 'object'\n  */\n  readonly format?: \"object\" | \"array\" | \"css\";\n}\n"},
	{"ts", "declare function foo() {}\n"},
	{"ts", "declare function foo(...args: any[], )"},
	{"ts", "declare interface I {}"},
	{"ts", "declare\ninterface I {}"},
	{"ts", "declare let x;"},
	{"ts", "declare\nlet x;"},
	{"ts", "declare module m {\n  class C {\n    field = \"field\";\n  }\n}"},
	{"ts", "declare module m {\n  function foo() {}\n}"},
	{"ts", "declare namespace m {\n  class C {\n    field = \"field\";\n  }\n}"},
	{"ts", "declare namespace n {\n  function foo() {}\n}"},
	{"ts", "declare interface B {\n  foo([]?): void;\n  bar({}, []?): any;\n  baz(a: string, b: number, []?): void;\n}"},
	{"ts", "interface a {\n  hasPressHandler: () =>\n    | (((event: import(\"react-native\").GestureResponderEvent) => void) &\n        (() => void))\n    | undefined;\n}\n"},
	{"ts", "interface a {\n  readonly sort?: ((itemLeft: string, itemRight: string) => number) | false;\n}\n"},
	{"ts", "declare var x;\ndeclare var x: any;"},
	{"ts", "declare\nvar x;\n\ndeclare\nvar x: any;"},
	{"ts", "class C {\n  @foo a = 1\n  @bar\n  b() {}\n}"},
	{"ts", "@decorator<string>()\nclass Test {}"},
	{"ts", "@decorator<string>\nclass Test {}"},
	{"tsx", "<T>x;\n"},
	{"tsx", "<T>() => 1;\n<T>(x) => 1;\n"},
	{"tsx", "<T>(x) => 1;\n"},
	{"tsx", "<T,>() => 1;"},
	{"tsx", "<T,>(x) => 1;"},
	{"dts", "export = Creator;\nexport as namespace Creator;\n\ndeclare namespace Creator {\n  interface ConstItem {\n    key: string\n    label: string\n    name?: string\n    title?: string\n    value: any\n  }\n}"},
	{"dts", "function foo(): any {}"},
	{"dts", "class Foo {\n  foo = 3;\n}\n"},
	{"ts", "interface Audio {\n  new: any;\n}\n"},
	{"dts", "function f([]?): any;"},
	{"dts", "function foo(...args: any[], );"},
	{"ts", "const enum E {}"},
	{"ts", "declare enum E {}"},
	{"ts", "declare const enum E {}"},
	{"ts", "declare enum\nE\n{}"},
	{"ts", "export enum E {}"},
	{"ts", "export const enum E {}"},
	{"ts", "export declare const enum E {}"},
	{"ts", "enum E {\n    A,\n    B = 0\n}"},
	{"ts", "enum E {\n    const,\n    default\n}"},
	{"ts", "enum E {\n    \"foo\",\n    \"bar\" = 1\n}"},
	{"ts", "enum E {\n    A,\n}"},
	{"ts", "enum E {\n    A = 0,\n}"},
	{"ts", "async (a) => await a! ** 6;"},
	{"ts", "(a) => +a! ** 6;"},
	{"ts", "async (a) => (await a!) ** 6;"},
	{"ts", "export as namespace A;"},
	{"ts", "export declare const x: number;\nexport declare function f(): void;\nexport declare class C {}\nexport declare interface I {}\nexport declare type T = number;\nexport declare module M {}\nexport declare namespace N {}\nexport declare enum foo {}\nexport declare var bar: string;\nexport declare var _bar;"},
	{"ts", "export declare foo;\n"},
	{"ts", "export declare declare var name;\n"},
	{"ts", "export = f;"},
	{"ts", "type A = 2;\nexport type { A };"},
	{"ts", "export type A = 2;\nexport interface B {}\nexport declare function a(): string;\nexport declare var b: string;"},
	{"ts", "export type { T } from './mod';"},
	{"ts", "export var a;\nexport function b() {}\nexport class C {}\n\nexport enum D {}\nexport namespace E {}"},
	{"ts", "/*1*/ export /*2*/ { /*3*/ A /*4*/, /*5*/ B /*6*/ as /*7*/ C /*8*/ } /*9*/ from /*10*/ \"foo\";\n/*1*/ export /*2*/ * /*3*/ from /*4*/ \"foo\""},
	{"ts", "export const x = 0;\nexport namespace N {\n    export const x = 1;\n}"},
	{"ts", "import a from \"./a\";\nexport { a };\n"},
	{"ts", "function f<T>(x?: T): T {}"},
	{"ts", "const f = function<T>(x?: T): T {};"},
	{"ts", "const fn = function* <T>(input: T): Generator<number> {\n  yield 2;\n}"},
	{"ts", "declare function f(): void;\ndeclare function f<T>(): T;"},
	{"ts", "declare function f([]?, {})"},
	{"ts", "function foo<>() {}"},
	{"ts", "export default function(x?: number): void;"},
	{"ts", "const g = {\n  get m() {}\n};\nconst s = {\n  set m(b: {}) {}\n};"},
	{"ts", "const g = {\n  get m(this: {}) {}\n};\nconst s = {\n  set m(this: {}, value) {}\n};"},
	{"ts", "const s = {\n  set m(this: {}, value) {}\n};"},
	{"ts", "export function f(x: number): number;\nexport function f(x: string): string;\nexport function f(x: any): any { }"},
	{"ts", "function foo(\n  readonly r,\n) {}\n"},
	{"ts", "function foo(\n  public pu: number,\n) {}\n"},
	{"ts", "function foo(\n  protected po?,\n) {}\n"},
	{"ts", "function foo(\n  private pi?: number,\n) {}\n"},
	{"ts", "function foo(\n  public readonly pur,\n) {}\n"},
	{"ts", "function foo(\n  readonly x = 0,\n) {}\n"},
	{"ts", "function foo(\n  public y?: number = 0\n) {}\n"},
	{"ts", "function f([]?, {}) {}\n"},
	{"ts", "function f(x: any): x is boolean {}\n(function(x: any): x is boolean {})"},
	{"ts", "import A = B.C;"},
	{"ts", "import a = require(\"a\");"},
	{"ts", "export import A = B.C;"},
	{"ts", "export import a = require(\"a\");"},
	{"ts", "export import type A = B.C;"},
	{"ts", "export import type = require(\"A\");"},
	{"ts", "export import type a = require(\"a\");"},
	{"ts", "import a = require(\"a\");\nexport { a };"},
	{"ts", "import type, { bar } from 'foo';"},
	{"ts", "import type from 'foo';"},
	{"ts", "import { foo } from \"bar\";"},
	{"ts", "import \"foo\";"},
	{"ts", "import * as a from \"a\";"},
	{"ts", "import type = require(\"A\");"},
	{"ts", "/*1*/ import /*2*/ D /*3*/, /*4*/ { /*5*/ A /*6*/, /*7*/ B /*8*/ as /*9*/ C /*10*/ } /*11*/ from /*12*/ \"foo\";\n/*1*/ import /*2*/ * /*3*/ as /*4*/ foo /*5*/ from /*6*/ \"foo\";"},
	{"ts", "declare module \"m\" {\n    import * as a from \"a\";\n}"},
	{"ts", "import type\nA = require(\"A\");\n\nimport\ntype\na = require(\"a\");\n\nexport import\ntype\nB = require(\"B\");\n\nexport\nimport\ntype\nb = require(\"b\");"},
	{"ts", "import type A = B.C;"},
	{"ts", "import type B = C;\n"},
	{"ts", "import type a = require(\"a\");"},
	{"ts", "abstract interface Foo {\n  foo: string;\n}"},
	{"ts", "interface I {\n    (x: number): void;\n}"},
	{"ts", "interface I {\n    new (x: number): void;\n}"},
	{"ts", "declare interface\nI\n{}"},
	{"ts", "export interface I {}\nexport default interface A {}"},
	{"ts", "export abstract interface I {\n\n}"},
	{"ts", "export default interface {}"},
	{"ts", "interface I extends X.Y<Z> {}"},
	{"ts", "interface Foo {\n  <T>(a: string): string;\n}"},
	{"ts", "type Foo = <T>() => number;"},
	{"ts", "type Foo = new <T>() => void;"},
	{"ts", "interface Foo {\n  new<T>(a: string): string;\n}"},
	{"ts", "interface Foo {\n  foo<T>(x: number): void;\n}"},
	{"ts", "interface I<T extends object = { x: number }> {}"},
	{"ts", "interface Foo {\n  get foo(): string;\n  set bar(v);\n}"},
	{"ts", "interface Foo {\n  get\n  foo(): string;\n  set\n  bar(v);\n}"},
	{"ts", "interface Foo {\n  set bar(foo?: string);\n}"},
	{"ts", "interface Foo {\n  get foo(param): string;\n}"},
	{"ts", "interface Foo {\n  set foo();\n}"},
	{"ts", "interface Foo {\n  set bar(...v);\n}"},
	{"ts", "interface Foo {\n  set foo(param): string;\n}"},
	{"ts", "interface Foo {\n  get bar(this: Foo);\n}"},
	{"ts", "interface Foo {\n  set bar(this: Foo);\n}"},
	{"ts", "interface Foo {\n  get(): string;\n  set(): string;\n}"},
	{"ts", "interface Foo {\n  get foo: string;\n  set bar: string;\n}"},
	{"ts", "interface Foo {\n  get foo<T>(): string;\n}"},
	{"ts", "interface Foo {\n  set bar<T>(v);\n}"},
	{"ts", "interface I {\n    [s: string]: number;\n}"},
	{"ts", "abstract interface\nFoo {}"},
	{"ts", "interface Foo {\n  private a();\n  public b();\n  protected c();\n  static d();\n  declare e();\n  abstract f();\n  readonly g();\n}\n"},
	{"ts", "interface Foo {\n  public b();\n}\n"},
	{"ts", "interface Foo {\n  protected c();\n}\n"},
	{"ts", "interface Foo {\n  static d();\n}\n"},
	{"ts", "interface Foo {\n  declare e();\n}\n"},
	{"ts", "interface Foo {\n  abstract f();\n}\n"},
	{"ts", "interface Foo {\n  readonly g();\n}\n"},
	{"ts", "interface Foo {\n  private a;\n  public b;\n  protected c;\n  static d;\n  declare e;\n  abstract f;\n}\n"},
	{"ts", "interface Foo {\n  public b;\n}\n"},
	{"ts", "interface Foo {\n  protected c;\n}\n"},
	{"ts", "interface Foo {\n  static d;\n}\n"},
	{"ts", "interface Foo {\n  declare e;\n}\n"},
	{"ts", "interface Foo {\n  abstract f;\n}\n"},
	{"ts", "interface I {\n    [Symbol.iterator](): void;\n    [Symbol.iterator]?(): number;\n}"},
	{"ts", "interface I {\n    m<T extends object = { x: number }>(): T;\n}"},
	{"ts", "interface I {\n    m?(): void;\n}"},
	{"ts", "interface I {\n    m();\n    m(x?: number, ...y: number[]): void;\n}"},
	{"ts", "interface I {\n    readonly x: number;\n}"},
	{"ts", "interface\nF\n{}"},
	{"ts", "interface\nF {}\n"},
	{"ts", "interface A {\n  foo([]?): void;\n  bar({}, []?): any;\n  baz(a: string, b: number, []?): void;\n}"},
	{"ts", "interface I {\n    x;\n    y: number;\n    z?: number;\n}"},
	{"ts", "interface I {\n    [Symbol.iterator]: number;\n    [Symbol.iterator]?: number;\n}"},
	{"ts", "interface I {\n\x09public: number;\n}"},
	{"ts", "interface I {\n    catch(): void;\n}"},
	{"ts", "interface Comma { x: number, y: number }\ninterface Semi { x: number; y: number }\ninterface Newline {\n    x: number\n    y: number\n}"},
	{"ts", "interface Foo {\n  bar(this: Foo);\n}"},
	{"ts", "namespace N {\n    const x = 0;\n}"},
	{"ts", "declare namespace N {\n    const x: number;\n}"},
	{"ts", "namespace A {\n    namespace B {\n    }\n}"},
	{"ts", "declare namespace A {\n    namespace B {\n        const x: number;\n    }\n}"},
	{"ts", "declare module \"m\";"},
	{"ts", "declare module \"m\" {\n    global {\n        var x: number;\n    }\n}"},
	{"ts", "namespace N {}\nnamespace M.N.O {}\nmodule M {}"},
	{"ts", "declare namespace N.M {}\ndeclare module M {}\ndeclare module \"m\" {}\ndeclare global {}"},
	{"ts", "export namespace X.Y {}\nexport module X {}"},
	{"ts", "declare\nmodule\n'foo'\n{}\n\ndeclare module\n'bar'\n{}"},
	{"ts", "module\nFoo\n{}\n\nmodule\n'm'\n{}"},
	{"ts", "module\nFoo {}"},
	{"ts", "declare\nnamespace\nfoofoo\n{}\n\ndeclare namespace\nbarbar\n{}"},
	{"ts", "namespace\nFoo\n{}"},
	{"ts", "namespace\nFoo {}"},
	{"ts", "namespace N {\n    const x = await 42;\n}"},
	{"tsx", "a.b!.c"},
	{"ts", "example.inner?.greet<string>()"},
	{"ts", "class Cl {\n  a = async<T>() => {\n    await 0;\n  };\n\n  b = async<T>() => {\n  };\n}"},
	{"ts", "interface Foo<G> {\n    <T>(bar: G): T;\n}"},
	{"ts", "type MyType = ({ theme }: any) => any\n\ntype AnotherType = ([a]: any) => any"},
	{"ts", "([, a]): b => c;"},
	{"ts", "export type T = number;\nexport enum E {}\nexport interface I {}"},
	{"tsx", "for (let i = 0; i < require('foo').bar; i++) {\n    x(i);\n}"},
	{"ts", "declare class C { }\nfunction C() { }"},
	{"ts", "declare class C { }\ndeclare function C(): void;"},
	{"ts", "{ enum Foo {} }\nlet Foo;"},
	{"ts", "declare function foo(): void;\n\nexport { foo };"},
	{"ts", "export { foo };\n\ndeclare function foo(): void;"},
	{"ts", "// https://github.com/babel/babel/issues/9763\n\nenum Test {}\n\nexport { Test as default }"},
	{"ts", "export { Test as default }\n\nenum Test {}"},
	{"ts", "interface A {}\nexport { A };"},
	{"ts", "export { A };\ninterface A {}"},
	{"ts", "namespace N {}\n\nexport { N };"},
	{"ts", "type A = number;\nexport { A };"},
	{"ts", "export { A };\ntype A = number;"},
	{"ts", "function f(): void;\nfunction f() {}\n\nexport { f };"},
	{"ts", "declare class foo {\n}\ndeclare module 'bar' {\n  export var foo: any;\n}"},
	{"ts", "declare class foo {\n}\nmodule bar {\n  export var foo: any;\n}"},
	{"ts", "class A {}\nclass A {}"},
	{"ts", "class A {}\nenum A {}"},
	{"ts", "class A {}\ninterface A {}"},
	{"ts", "class A {}\ntype A = number;"},
	{"ts", "const X = \"\";\ntype X = number;"},
	{"ts", "const enum Foo {}\nconst enum Foo {}"},
	{"ts", "const enum X {}\nenum X {}"},
	{"ts", "enum X {}\nclass X {}"},
	{"ts", "enum X {}\nconst enum X {}"},
	{"ts", "enum Foo {}\nenum Foo {}"},
	{"ts", "enum Foo {}\nfunction Foo() {}"},
	{"ts", "enum X {}\ninterface X {}"},
	{"ts", "enum Foo {}\nlet Foo;"},
	{"ts", "enum X {}\ntype X = number;"},
	{"ts", "function Foo() {}\nenum Foo {}"},
	{"ts", "function A() {}\ninterface A {}"},
	{"ts", "function A() {}\ntype A = number;"},
	{"ts", "import Something from './somewhere.js'\n\ndeclare class Something {}"},
	{"ts", "interface A {}\nclass A {}"},
	{"ts", "interface X {}\nenum X {}"},
	{"ts", "interface A {}\nfunction A() {}"},
	{"ts", "interface A {}\ninterface A {}"},
	{"ts", "interface A {}\nlet A;"},
	{"ts", "interface A {}\nvar A;"},
	{"ts", "let Foo;\nenum Foo {}"},
	{"ts", "let A;\ninterface A {}"},
	{"ts", "let X = \"\";\ntype X = number;"},
	{"ts", "type A = number;\nclass A {}"},
	{"ts", "type A = number;\nenum A {}"},
	{"ts", "type A = number;\nfunction A() {}"},
	{"ts", "type A = number;\ninterface A {}"},
	{"ts", "type A = number;\nlet A;"},
	{"ts", "type A = number;\ntype A = string;"},
	{"ts", "type A = number;\nvar A;"},
	{"ts", "var A;\ninterface A {}"},
	{"ts", "var X = \"\";\ntype X = number;"},
	{"ts", "class Foo {\n  private static {}\n}"},
	{"ts", "class Foo {\n  static private {}\n}"},
	{"ts", "class Foo {\n  protected static {}\n}"},
	{"ts", "class Foo {\n  static protected {}\n}"},
	{"ts", "class Foo {\n  public static {}\n}\n"},
	{"ts", "class Foo {\n  static public {}\n}"},
	{"ts", "class Foo {\n  abstract static {}\n}\n"},
	{"ts", "class Foo {\n  static abstract {}\n}\n"},
	{"ts", "class Foo {\n  override static {}\n}\n"},
	{"ts", "class Foo extends A {\n  static override {}\n}"},
	{"ts", "class Foo {\n  static static {}\n}"},
	{"ts", "class Foo {\n  declare static {}\n}\n"},
	{"ts", "class Foo {\n  static declare {}\n}"},
	{"ts", "class Foo {\n  readonly static {}\n}"},
	{"ts", "class Foo {\n  static readonly {}\n}"},
	{"ts", "class Foo {\n  static {}\n}"},
	{"ts", "class Foo {\n  static;\n  static {}\n}"},
	{"ts", "class Foo {\n  static foo;\n  static {}\n}"},
	{"ts", "class Foo {\n  static static;\n  static {}\n}"},
	{"ts", "class Foo {\n  static\n  {\n    something();\n  }\n}"},
	{"tsx", "const fn = function* <T>(input: T): Generator<number> {\n  yield 2;\n}"},
	{"tsx", "const fn = function* <,>(input: T): Generator<number> {\n  yield 2;\n}\n"},
	{"tsx", "function Foo() {\n  return (\n    <div>\n      {it.valueOptions!.map((b) => (\n        <div>{b}</div>\n      ))}\n    </div>\n  );\n}\n"},
	{"tsx", "let a = 2\n\na == 3 ? (a = <h1>123</h1>) : (a = <h1>abc</h1>)"},
	{"tsx", "// Regression test for tokenizer bug where the `{` after `<T>` was considered a JSX interpolation.\nclass C extends D<T> {}\n<C/>"},
	{"tsx", "function Foo() {\n  return (\n    <div propA={[ key: value ]} propsB={(a: b)} />\n  );\n}"},
	{"tsx", "function Foo() {\n  return a ? <div /> : null;\n}"},
	{"tsx", "function Foo() {\n  return (\n    <></>\n  );\n}"},
	{"tsx", "function Foo() {\n  return <div data-handler-id={handlerId}></div>;\n}\n"},
	{"tsx", "function Foo() {\n  return (\n    <div\n      attr={[\"a\", \"b\", \"c\"]} // line comment\n    ></div>\n  );\n}"},
	{"tsx", "function Foo() {\n  return {\n    mount: () => (\n      <MicroApp\n        customProps={commonProps}\n      />\n    ),\n  };\n}\n"},
	{"ts", "f<T>();\nnew C<T>();\ntype A = T<T>;"},
	{"ts", "function f(): <T>() => number {}"},
	{"tsx", "function Foo() {\n  return (\n    <BrowserRouter>\n      <ConfigProvider locale={locale}>\n      </ConfigProvider>\n    </BrowserRouter>\n  );\n}"},
	{"ts", "declare type T = number;"},
	{"ts", "declare type\nT = number"},
	{"ts", "export type T = number;\n// `export default type` is not valid."},
	{"ts", "type T<U> = U;"},
	{"ts", "type T<U extends object = { x: number }> = Array<U>;"},
	{"ts", "type T = number;"},
	{"ts", "f<<<T>(x)"},
	{"ts", "f<<T>(v: T) => void>();"},
	{"ts", "(class extends f<<T>(v: T) => void> {});"},
	{"tsx", "<Component<<T>(v: T) => void> />"},
	{"ts", "new f<<T>(v: T) => void>();"},
	{"ts", "f<< T > (()=>T) > T"},
	{"tsx", "const [val, setVal] = useState<any[]>([]);"},
	{"ts", "f<T>();\nf<T, U>();"},
	{"ts", "f?.<Q>();\nf?.<Q, W>();\nf\n?.<Q>();"},
	{"ts", "f?.<string>[1];"},
	{"ts", "foo<>()"},
	{"ts", "interface A extends B<> {}"},
	{"ts", "class A implements B<> {}\n"},
	{"ts", "new A<>();"},
	{"ts", "class A extends B<> {}"},
	{"tsx", "var a = <Comp<>></Comp>\n"},
	{"ts", "let a: import(\"\")<>;"},
	{"ts", "let a: Foo<>;\n"},
	{"ts", "new C<T>();\nnew C<T, U>();"},
	{"ts", "new A < T;"},
	{"ts", "new A<T>;\n"},
	{"ts", "f<T>``;"},
	{"ts", "new C<T>\n``"},
	{"tsx", "<C<number>></C>;\n<C<number>/>;"},
	{"ts", "function f<  T    >() {}"},
	{"ts", "export { type A, type B, type C } from \"foo\";"},
	{"ts", "export type { type foo } from \"foo\";"},
	{"ts", "export { Component, type ComponentProps } from \"./exports.js\";"},
	{"ts", "export { type } from \"./mod.js\";"},
	{"ts", "export { type as as } from \"./mod.js\";"},
	{"ts", "const type = {};\nexport { type as if };"},
	{"ts", "const as = {};\nexport { type as as if };"},
	{"ts", "const a = {};\nexport { type a };"},
	{"ts", "export { type as } from \"./mod.js\";"},
	{"ts", "export { typ\\u0065 as } from \"x\";"},
	{"ts", "import { type A, type B, type C } from \"foo\";"},
	{"ts", "import { typ\\u0065 as } from \"x\";"},
	{"ts", "import { type as if } from \"mod\";"},
	{"ts", "import type { type foo } from \"foo\";"},
	{"ts", "import { type as as if } from \"mod\";"},
	{"ts", "import { type foo as \"bar\" } from \"mod\";"},
	{"ts", "import { Component, type ComponentProps } from \"./exports.js\";"},
	{"ts", "import { type } from \"./mod.js\";"},
	{"ts", "import { type as as } from \"./mod.js\";"},
	{"ts", "import { type Foo1 } from \"mod\";\nexport { Foo1 };"},
	{"ts", "import { type as } from \"./mod.js\";"},
	{"ts", "let x: abstract new () => void = X;"},
	{"ts", "let arr: number[][];"},
	{"ts", "let x: number extends string ? boolean : null;"},
	{"ts", "type Element<T> = T extends (infer U)[] ? U : T;"},
	{"ts", "let x: new () => void = X;"},
	{"ts", "let f: (a: number, b?: number, ...c: number[]) => void;"},
	{"ts", "let f: <T>(a: T) => T;"},
	{"ts", "let x: Array<() => void>;"},
	{"ts", "let f: (this: number) => void;"},
	{"ts", "import type T from './mod';\nimport type { A, B } from './mod';\nimport type * as Types from './mod';"},
	{"ts", "import type FooDefault, { Bar, Baz } from \"module\";"},
	{"ts", "let x: typeof import('./x');\nlet Y: import('./y').Y;\nlet z: import(\"/z\").foo.bar<string>;"},
	{"ts", "type X = import(3);"},
	{"ts", "type Y = import(`Foo`);"},
	{"ts", "type Z = import(Y);"},
	{"ts", "import typ\\u{65} typescript from \"typescript\";\n"},
	{"ts", "let x: T[K];"},
	{"ts", "type intrinsic = 2;\nfunction foo(x: intrinsic): intrinsic {\n  var a: intrinsic = 2;\n  type X = 1 | intrinsic;\n  type Foo = intrinsic.bar;\n  return a\n}"},
	{"ts", "type Foo = intrinsic;\ntype Bar<T> = intrinsic;"},
	{"ts", "type Foo = intrinsic[\"foo\"];\n\n"},
	{"ts", "let a: any;\nlet un: unknown;\nlet b: boolean;\nlet ne: never;\nlet nul: null;\nlet num: number;\nlet o: object;\nlet st: string;\nlet sy: symbol;\nlet u: undefined;\nlet v: void;\nlet n: bigint;"},
	{"ts", "let x: 0n;"},
	{"ts", "let x: -1n;"},
	{"ts", "let x1: true;\nlet x2: false;"},
	{"ts", "let x: 0;"},
	{"ts", "let x: -1;"},
	{"ts", "let x: \"foo\";"},
	{"ts", "let x: `foo`;"},
	{"ts", "let x: `foo-${bar}`;"},
	{"ts", "let x: `foo-${bar + baz}`;\n"},
	{"ts", "let x: `foo-${infer bar}`;"},
	{"ts", "type a = { +readonly [P in keyof A as B]-?: number; };"},
	{"ts", "let map1: { [P in string]: number; };\nlet map2: { readonly [P in string]?: number; };\nlet map3: { +readonly [P in string]+?: number; };\nlet map4: { -readonly [P in string]-?: number };"},
	{"ts", "type Foo<T> = { [K in keyof T as]: T[K] };\n"},
	{"ts", "type\nFoo = string;"},
	{"ts", "const table = {\n  put<T extends { id: string }>(value: T) {\n    // actually put.\n  }\n};"},
	{"ts", "type T = ({});"},
	{"ts", "type C = {\n  foo([]?): void;\n  bar({}, []?): any;\n  baz(a: string, b: number, []?): void;\n};"},
	{"ts", "type T30 = readonly string[];\ntype T31 = readonly [string][];  "},
	{"ts", "type T30 = readonly string;  // Error"},
	{"ts", "type T31 = readonly T;  // Error"},
	{"ts", "type T32 = readonly readonly string[];  // Error"},
	{"ts", "type T33 = readonly Array<string>;  // Error"},
	{"ts", "let x: T;"},
	{"ts", "let x: Array<number>;"},
	{"ts", "let x: Array<Array<number>>;"},
	{"ts", "let x: [number, number, number];"},
	{"ts", "let x: [];"},
	{"ts", "type T = [x.y: A];"},
	{"ts", "type T = [x<y>: A];"},
	{"ts", "type T = [foo: string, bar?: number];"},
	{"ts", "type T = [A, y: B];\n"},
	{"ts", "type T = [x: A, B];"},
	{"ts", "type T = [x: A?];"},
	{"ts", "let x: [A: string, ...B: number[]]"},
	{"ts", "let x: [string, number?, (string | number)?]"},
	{"ts", "let x: [string?, number]"},
	{"ts", "type T = [x?: A, y: B];"},
	{"ts", "let x: [string, ...number[]]"},
	{"ts", "function foo(...args: [number, string?, ...number[]]) {}"},
	{"ts", "let x: [...[number, string], string]"},
	{"ts", "let x: [string, ...string[],]"},
	{"ts", "type T = [x: A, ...B[]];"},
	{"ts", "type T = [...B[], x: A];"},
	{"ts", "let obj: { x: number };\n// Type literals have the same body syntax as interfaces, so see `interface` directory for that."},
	{"ts", "var obj: {\n  get foo(): string;\n  set bar(v);\n};"},
	{"ts", "let x: keyof T;\nlet y: unique symbol;\nlet z: readonly number[];\nlet z1: readonly [number, number];"},
	{"ts", "let x: typeof y.z;"},
	{"ts", "type abstract = \"abstract\";\nlet x: abstract;"},
	{"ts", "let union: number | null | undefined;\nlet intersection: number & string;"},
	{"ts", "let precedence1: number | string & boolean;\nlet precedence2: number & string | boolean;"},
}
