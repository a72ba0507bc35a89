// Package zzinst holds the instances of generic types which the harness uses. A generic
// function is compiled where it is instantiated; here that is with race instrumentation,
// in the harness it would be without.
package zzinst

import (
	"github.com/hsiaosiyuan0/mole/parseutil"
	"github.com/hsiaosiyuan0/mole/util"
)

type Payload struct {
	N int
	S string
}

type PairKey struct{ A, B string }

type LruInt struct{ c *util.LruCache[int, int] }

func NewLruInt(cap, clear int) LruInt { return LruInt{util.NewLruCache[int, int](cap, clear)} }
func (c LruInt) HasKey(k int) bool    { return c.c.HasKey(k) }
func (c LruInt) Get(k int) int        { return c.c.Get(k) }
func (c LruInt) Set(k, v int)         { c.c.Set(k, v) }

type LruStr struct {
	c *util.LruCache[string, *Payload]
}

func NewLruStr(cap, clear int) LruStr     { return LruStr{util.NewLruCache[string, *Payload](cap, clear)} }
func (c LruStr) HasKey(k string) bool     { return c.c.HasKey(k) }
func (c LruStr) Get(k string) *Payload    { return c.c.Get(k) }
func (c LruStr) Set(k string, v *Payload) { c.c.Set(k, v) }

type LruPair struct {
	c *util.LruCache[PairKey, interface{}]
}

func NewLruPair(cap, clear int) LruPair {
	return LruPair{util.NewLruCache[PairKey, interface{}](cap, clear)}
}
func (c LruPair) HasKey(k PairKey) bool        { return c.c.HasKey(k) }
func (c LruPair) Get(k PairKey) interface{}    { return c.c.Get(k) }
func (c LruPair) Set(k PairKey, v interface{}) { c.c.Set(k, v) }

type ParseStr struct{ c *parseutil.ParseCache[string] }

func NewParseStr() ParseStr                     { return ParseStr{parseutil.NewParseCache[string]()} }
func (c ParseStr) SetParser(p parseutil.Parser) { c.c.SetParser(p) }
func (c ParseStr) Parse(typ parseutil.ParserType, key string, file, code string, readFile bool, biz interface{}) parseutil.FutureParsed {
	return c.c.Parse(typ, key, file, code, readFile, biz)
}

type ParsePair struct {
	c *parseutil.ParseCache[PairKey]
}

func NewParsePair() ParsePair                    { return ParsePair{parseutil.NewParseCache[PairKey]()} }
func (c ParsePair) SetParser(p parseutil.Parser) { c.c.SetParser(p) }
func (c ParsePair) Parse(typ parseutil.ParserType, key PairKey, file, code string, readFile bool, biz interface{}) parseutil.FutureParsed {
	return c.c.Parse(typ, key, file, code, readFile, biz)
}
