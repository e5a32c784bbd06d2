package main

// Random schemas and random evolutions of schemas.

import (
	"fmt"
	"math/rand"
	"strings"
)

// No table name is a prefix of another up to an underscore, so that generated
// index names are distinct.
var tablePool = []string{"actor", "film", "city", "order", "group", "my table", "Mixed", "2fast", "ünï", "a-b", "it's", "table", "sqlitex", "index", "UPPER CASE", "store", "staff"}
var colPool = []string{"name", "val", "amount", "select", "from", "two words", "Camel", "n1", "n2", "été", "3d", "dash-ed", "q'uote", "created", "descr", "flag", "where", "key", "rank", "x_y"}

type colKind struct {
	field string
	typ   string
	defs  []string
}

var sqliteKinds = []colKind{
	{"NumberField", "", []string{"0", "7", "-5", "(1)+(2)", "abs(-4)"}},
	{"StringField", "", []string{"''", "'abc'", "'it''s'", "'two words'", "lower('ABC')"}},
	{"BooleanField", "", []string{"TRUE", "FALSE"}},
	{"TimeField", "", []string{"CURRENT_TIMESTAMP", "'2001-02-03 04:05:06'"}},
	{"BinaryField", "", nil},
	{"JSONField", "", []string{"'[]'", "'{}'"}},
	{"UUIDField", "", nil},
	{"EnumField", "", []string{"'a'"}},
	{"ArrayField", "", []string{"'[]'"}},
	{"AnyField", "", nil},
	{"StringField", "VARCHAR(20)", []string{"'v'"}},
	{"NumberField", "BIGINT", []string{"42"}},
	{"NumberField", "REAL", []string{"1.5"}},
	{"NumberField", "NUMERIC(10,2)", []string{"3.14"}},
	{"NumberField", "DOUBLE PRECISION", nil},
	{"StringField", "varchar(30)", nil},
	{"TimeField", "DATE", nil},
	{"NumberField", "INTEGER", []string{"9"}},
}

type sgen struct {
	r       *rand.Rand
	kinds   []colKind
	noFKs   bool
	maxTabs int
}

func newSgen(r *rand.Rand) *sgen { return &sgen{r: r, kinds: sqliteKinds, maxTabs: 4} }

func (g *sgen) newCol(t *mTable) *mCol {
	for i := 0; i < 50; i++ {
		name := colPool[g.r.Intn(len(colPool))]
		if t.col(name) != nil {
			continue
		}
		k := g.kinds[g.r.Intn(len(g.kinds))]
		c := &mCol{Name: name, Field: k.field, Type: k.typ}
		if len(k.defs) > 0 && g.r.Intn(3) == 0 {
			c.Default = k.defs[g.r.Intn(len(k.defs))]
		}
		c.NotNull = g.r.Intn(3) == 0
		return c
	}
	return nil
}

func (g *sgen) someCols(t *mTable, n int) []string {
	perm := g.r.Perm(len(t.Cols))
	if n > len(perm) {
		n = len(perm)
	}
	var out []string
	for _, i := range perm[:n] {
		out = append(out, t.Cols[i].Name)
	}
	return out
}

func (g *sgen) newTable(s *mSchema) *mTable {
	var name string
	for i := 0; i < 50; i++ {
		n := tablePool[g.r.Intn(len(tablePool))]
		if s.table(n) == nil {
			name = n
			break
		}
	}
	if name == "" {
		return nil
	}
	t := &mTable{Name: name}
	idName := []string{"id", "id", "ID", strings.ToLower(strings.ReplaceAll(name, " ", "")) + "_id"}[g.r.Intn(4)]
	id := &mCol{Name: idName, Field: "NumberField"}
	switch g.r.Intn(6) {
	case 0:
		id.Autoinc = true
	case 1:
		id.Field = "StringField"
	case 2:
		id.Type = "BIGINT"
	case 3:
		id.Type = "INTEGER"
	}
	t.Cols = append(t.Cols, id)
	for n := 1 + g.r.Intn(5); n > 0; n-- {
		if c := g.newCol(t); c != nil {
			t.Cols = append(t.Cols, c)
		}
	}
	switch g.r.Intn(5) {
	case 0:
		if len(t.Cols) >= 2 && !id.Autoinc {
			t.PK = g.someCols(t, 2)
			break
		}
		fallthrough
	default:
		t.PK = []string{id.Name}
	case 1:
		if !id.Autoinc {
			t.PK = nil
		} else {
			t.PK = []string{id.Name}
		}
	}
	for n := g.r.Intn(3); n > 0; n-- {
		g.addUnique(t)
	}
	for n := g.r.Intn(3); n > 0; n-- {
		g.addIdx(t)
	}
	s.Tables = append(s.Tables, t)
	if !g.noFKs {
		for n := g.r.Intn(3); n > 0; n-- {
			g.addFK(s, t)
		}
	}
	return t
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		if !contains(b, x) {
			return false
		}
	}
	return true
}

func (g *sgen) addUnique(t *mTable) []string {
	u := g.someCols(t, 1+g.r.Intn(2))
	if sameSet(u, t.PK) {
		return nil
	}
	for _, x := range t.Uniques {
		if sameSet(x, u) {
			return nil
		}
	}
	t.Uniques = append(t.Uniques, u)
	return u
}

func (g *sgen) addIdx(t *mTable) {
	x := g.someCols(t, 1+g.r.Intn(2))
	if t.idx(x) != nil {
		return
	}
	t.Idxs = append(t.Idxs, &mIdx{Cols: x, Unique: g.r.Intn(4) == 0})
}

var fkRules = []string{"", "", "CASCADE", "SET NULL", "RESTRICT", "SET DEFAULT"}

func (g *sgen) addFK(s *mSchema, t *mTable) {
	ref := s.Tables[g.r.Intn(len(s.Tables))]
	var targets [][]string
	if len(ref.PK) > 0 {
		targets = append(targets, ref.PK)
	}
	targets = append(targets, ref.Uniques...)
	if len(targets) == 0 {
		return
	}
	target := targets[g.r.Intn(len(targets))]
	cols := g.someCols(t, len(target))
	if len(cols) != len(target) || t.fk(cols) != nil || (ref == t && key(cols) == key(target)) {
		return
	}
	for _, c := range cols {
		if t.col(c).Autoinc {
			return
		}
	}
	f := &mFK{Cols: cols, RefTable: ref.Name, RefCols: append([]string(nil), target...),
		OnUpdate: fkRules[g.r.Intn(len(fkRules))], OnDelete: fkRules[g.r.Intn(len(fkRules))]}
	f.Defer = []string{"", "", "deferrable", "deferred"}[g.r.Intn(4)]
	t.FKs = append(t.FKs, f)
}

func (g *sgen) schema() *mSchema {
	s := &mSchema{}
	for n := 1 + g.r.Intn(g.maxTabs); n > 0; n-- {
		g.newTable(s)
	}
	return s
}

// dropFKsTo removes the foreign keys that need the given columns of a table to
// be unique (nil for every foreign key to the table).
func dropFKsTo(s *mSchema, table string, cols []string) {
	for _, t := range s.Tables {
		var keep []*mFK
		for _, f := range t.FKs {
			if f.RefTable == table && (cols == nil || key(f.RefCols) == key(cols)) {
				continue
			}
			keep = append(keep, f)
		}
		t.FKs = keep
	}
}

// dropCol removes a column and everything that depends on it.
func dropCol(s *mSchema, t *mTable, name string) {
	var cols []*mCol
	for _, c := range t.Cols {
		if c.Name != name {
			cols = append(cols, c)
		}
	}
	t.Cols = cols
	var us [][]string
	for _, u := range t.Uniques {
		if contains(u, name) {
			dropFKsTo(s, t.Name, u)
			continue
		}
		us = append(us, u)
	}
	t.Uniques = us
	var xs []*mIdx
	for _, x := range t.Idxs {
		if !contains(x.Cols, name) {
			xs = append(xs, x)
		}
	}
	t.Idxs = xs
	var fs []*mFK
	for _, f := range t.FKs {
		if !contains(f.Cols, name) {
			fs = append(fs, f)
		}
	}
	t.FKs = fs
}

// addNewCol adds a column to a table that may have rows: a NOT NULL column
// has a constant default.
func (g *sgen) addNewCol(t *mTable) *mCol {
	c := g.newCol(t)
	if c == nil {
		return nil
	}
	if c.Default != "" && (!reLiteral.MatchString(c.Default) || strings.HasPrefix(strings.ToUpper(c.Default), "CURRENT")) {
		c.Default = ""
	}
	if c.Default == "" {
		c.NotNull = false
	}
	t.Cols = append(t.Cols, c)
	return c
}

// mutate applies one random change and describes it.
func (g *sgen) mutate(s *mSchema) string {
	if len(s.Tables) == 0 || (len(s.Tables) < g.maxTabs+2 && g.r.Intn(8) == 0) {
		if t := g.newTable(s); t != nil {
			return "add table " + t.Name
		}
		return ""
	}
	i := g.r.Intn(len(s.Tables))
	t := s.Tables[i]
	switch g.r.Intn(16) {
	case 0:
		if len(s.Tables) < 2 {
			return ""
		}
		dropFKsTo(s, t.Name, nil)
		s.Tables = append(s.Tables[:i:i], s.Tables[i+1:]...)
		return "drop table " + t.Name
	case 1, 2:
		if c := g.addNewCol(t); c != nil {
			return "add column " + t.Name + "." + c.Name
		}
	case 3:
		// A new column that is part of a new constraint or index.
		c := g.newCol(t)
		if c == nil {
			return ""
		}
		c.Default, c.NotNull = "", false
		t.Cols = append(t.Cols, c)
		switch g.r.Intn(3) {
		case 0:
			t.Uniques = append(t.Uniques, []string{c.Name})
			return "add unique column " + t.Name + "." + c.Name
		case 1:
			t.Idxs = append(t.Idxs, &mIdx{Cols: []string{c.Name}})
			return "add indexed column " + t.Name + "." + c.Name
		default:
			if g.noFKs {
				return "add column " + t.Name + "." + c.Name
			}
			ref := s.Tables[g.r.Intn(len(s.Tables))]
			if len(ref.PK) == 1 {
				t.FKs = append(t.FKs, &mFK{Cols: []string{c.Name}, RefTable: ref.Name, RefCols: []string{ref.PK[0]}, OnDelete: fkRules[g.r.Intn(len(fkRules))]})
			}
			return "add referencing column " + t.Name + "." + c.Name
		}
	case 4, 5:
		var can []string
		for _, c := range t.Cols {
			if !contains(t.PK, c.Name) {
				can = append(can, c.Name)
			}
		}
		if len(can) == 0 || len(t.Cols) < 2 {
			return ""
		}
		name := can[g.r.Intn(len(can))]
		dropCol(s, t, name)
		return "drop column " + t.Name + "." + name
	case 6, 7:
		c := t.Cols[g.r.Intn(len(t.Cols))]
		if contains(t.PK, c.Name) || c.Autoinc {
			return ""
		}
		k := g.kinds[g.r.Intn(len(g.kinds))]
		c.Field, c.Type, c.Default = k.field, k.typ, ""
		return "change type of " + t.Name + "." + c.Name
	case 8:
		c := t.Cols[g.r.Intn(len(t.Cols))]
		if contains(t.PK, c.Name) {
			return ""
		}
		c.NotNull = !c.NotNull
		return "toggle not null of " + t.Name + "." + c.Name
	case 9:
		c := t.Cols[g.r.Intn(len(t.Cols))]
		if contains(t.PK, c.Name) {
			return ""
		}
		var defs []string
		for _, k := range g.kinds {
			if k.field == c.Field && k.typ == c.Type {
				defs = k.defs
			}
		}
		if c.Default != "" || len(defs) == 0 {
			c.Default = ""
		} else {
			c.Default = defs[g.r.Intn(len(defs))]
		}
		return "change default of " + t.Name + "." + c.Name
	case 10:
		if u := g.addUnique(t); u != nil {
			return "add unique " + t.Name + fmt.Sprint(u)
		}
	case 11:
		if len(t.Uniques) > 0 {
			j := g.r.Intn(len(t.Uniques))
			u := t.Uniques[j]
			t.Uniques = append(t.Uniques[:j:j], t.Uniques[j+1:]...)
			dropFKsTo(s, t.Name, u)
			return "drop unique " + t.Name + fmt.Sprint(u)
		}
	case 12:
		if !g.noFKs {
			n := len(t.FKs)
			g.addFK(s, t)
			if len(t.FKs) > n {
				return "add fk " + t.Name + " " + fkString(t.FKs[n])
			}
		}
	case 13:
		if len(t.FKs) > 0 {
			j := g.r.Intn(len(t.FKs))
			f := t.FKs[j]
			t.FKs = append(t.FKs[:j:j], t.FKs[j+1:]...)
			return "drop fk " + t.Name + " " + fkString(f)
		}
	case 14:
		n := len(t.Idxs)
		g.addIdx(t)
		if len(t.Idxs) > n {
			return "add index on " + t.Name
		}
	case 15:
		if len(t.Idxs) > 0 {
			j := g.r.Intn(len(t.Idxs))
			t.Idxs = append(t.Idxs[:j:j], t.Idxs[j+1:]...)
			return "drop index on " + t.Name
		}
	}
	return ""
}
