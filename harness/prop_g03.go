package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

func init() {
	register(&Prop{
		ID:    "G03",
		Level: "exploration",
		Rule:  "Fails when a server as strict as PostgreSQL, MySQL or SQL Server would reject a generated statement, when the schema after applying the generated files in order is not the declared one (or, without -drop-objects, the declared one plus what already existed), or when generating again from the result writes any file.",
		Assumptions: []string{
			"PostgreSQL, MySQL and SQL Server are represented by an interpreter of the generated DDL: names, quoting, reserved words, order, dependencies, transactions and what each clause changes follow the servers' documentation. Statements it does not know are rejected.",
			"The tables hold no rows, so statements that only fail on existing data are not seen.",
			"A same-named constraint or index with another definition, the kind of an identity, AUTO_INCREMENT and ON UPDATE of existing columns and the types of columns in foreign keys do not change, because generate does not track them.",
		},
		MinCounts: map[string]int64{"steps": 100, "statements": 1000, "steps_postgres": 20, "steps_mysql": 20, "steps_sqlserver": 20, "dest_structs": 20, "dest_json": 20, "steps_drop": 20, "alter_column": 30, "second_generate_empty": 100},
		Cases:     g03Cases,
	})
}

func g03Cases(tier string, seed int64) []Case {
	var out []Case
	n := tierN(tier, 12000, 120000)
	for i := 0; i < n; i++ {
		d := []string{"postgres", "mysql", "sqlserver"}[i%3]
		out = append(out, Case{ID: fmt.Sprintf("%s-%d", d, i/3), Run: func(t *T) { g03History(t, d) }})
	}
	return append(out, g03Probes()...)
}

// ---- the declared schema ------------------------------------------------------

type vGen struct {
	r       *rand.Rand
	dialect string
	live    *vDB
	json    bool // may use what table structs cannot express
	seq     int
	// structs is set when the destination may be table structs: constraints
	// and indexes carry the conventional names.
	structs bool
}

var vTableNames = []string{"users", "orders", "item", "film_actor", "audit_log", "Accounts", "order", "group", "line items", "user", "table", "t-2", "select", "naïve"}
var vColNames = []string{"überlanger_spaltenname_für_prüfungen", "id", "name", "email", "price", "order", "key", "Value", "first name", "user", "group", "index", "desc", "is_ok", "x1", "größe", "limit", "check", "primary"}

func (g *vGen) fresh(pool []string, taken func(string) bool) string {
	n := pool[g.r.Intn(len(pool))]
	if g.json && g.r.Intn(12) == 0 {
		n += []string{`"q`, "]z", "`b", "'s"}[g.r.Intn(4)]
	}
	base := n
	for taken(n) {
		g.seq++
		n = base + strconv.Itoa(g.seq)
	}
	return n
}

func (g *vGen) conName(t *vTable, kind string, cols []string) string {
	if g.dialect == "mysql" && kind == "pkey" {
		return "PRIMARY"
	}
	if !g.structs && g.r.Intn(3) == 0 {
		g.seq++
		return []string{"Con", "my key", "k", "order"}[g.r.Intn(4)] + strconv.Itoa(g.seq)
	}
	return genName(kind, t.Name, cols)
}

func (g *vGen) column(db *vDB, t *vTable) *vCol {
	d := g.dialect
	taken := func(n string) bool {
		if d == "sqlserver" {
			// Column names are unique in the database, because the lookup of
			// default constraints mixes up tables (known finding).
			for _, o := range db.Tables {
				for _, c := range o.Cols {
					if strings.EqualFold(c.Name, n) {
						return true
					}
				}
			}
		}
		for _, c := range t.Cols {
			if strings.EqualFold(c.Name, n) {
				return true
			}
		}
		if g.live != nil {
			if lt := g.live.table(t.Schema, t.Name); lt != nil && lt.col(n) != nil {
				return true
			}
		}
		return false
	}
	c := &vCol{Name: g.fresh(vColNames, taken)}
	if d == "sqlserver" {
		g.seq++
		c.Name += strconv.Itoa(g.seq)
	}
	vt := vTypes[d][g.r.Intn(len(vTypes[d]))]
	if g.r.Intn(3) == 0 {
		vt = vTypes[d][g.r.Intn(2)]
	}
	c.Type = vt.Canon
	if vt.Group == "str" && g.r.Intn(6) == 0 {
		c.Coll = vCollations[d][g.r.Intn(len(vCollations[d]))]
	}
	if g.r.Intn(3) == 0 {
		c.Def = g.defaultFor(vt.Group)
	}
	if g.r.Intn(3) == 0 {
		c.NotNull = true
	}
	if d == "mysql" && vt.Group == "time" && g.r.Intn(3) == 0 {
		c.OUCT = true
	}
	return c
}

var vCollations = map[string][]string{
	"postgres":  {"C", "POSIX", "de_DE"},
	"mysql":     {"utf8mb4_bin", "latin1_swedish_ci"},
	"sqlserver": {"Latin1_General_BIN2", "French_CI_AS"},
}

var vDefaultColl = map[string]string{"postgres": "en_US.utf8", "mysql": "utf8mb4_0900_ai_ci", "sqlserver": "SQL_Latin1_General_CP1_CI_AS"}

func (g *vGen) defaultFor(group string) string {
	list := vDefaults(g.dialect, group)
	if len(list) == 0 {
		return ""
	}
	return list[g.r.Intn(len(list))].Canon
}

// keyable reports whether a column can be part of a key or index.
func keyable(dialect string, c *vCol) bool {
	if c.Gen != "" {
		return false
	}
	switch vTypeNamed(dialect, c.Type).Group {
	case "int", "str", "time", "date", "num":
		return c.Type != "text" && c.Type != "nvarchar(max)" || dialect == "postgres"
	}
	return false
}

func (g *vGen) pickCols(t *vTable, max int, ok func(*vCol) bool) []string {
	var names []string
	for _, i := range g.r.Perm(len(t.Cols)) {
		if keyable(g.dialect, t.Cols[i]) && (ok == nil || ok(t.Cols[i])) {
			names = append(names, t.Cols[i].Name)
		}
	}
	n := 1
	if max > 1 && g.r.Intn(3) == 0 {
		n = 2
	}
	if len(names) < n {
		return nil
	}
	return names[:n]
}

func (g *vGen) table(db *vDB) *vTable {
	t := &vTable{Schema: db.Cur}
	if g.r.Intn(3) == 0 {
		var list []string
		for s := range db.Schemas {
			list = append(list, s)
		}
		sort.Strings(list)
		t.Schema = list[g.r.Intn(len(list))]
	}
	t.Name = g.fresh(vTableNames, func(n string) bool {
		for _, o := range db.Tables {
			if strings.EqualFold(o.Name, n) {
				return true
			}
		}
		// Dropping a table and declaring another under its name is a change
		// of the table for generate, of columns that need not be convertible.
		if g.live != nil {
			for _, o := range g.live.Tables {
				if strings.EqualFold(o.Name, n) {
					return true
				}
			}
		}
		return false
	})
	id := &vCol{Name: "id", Type: vTypes[g.dialect][g.r.Intn(2)].Canon}
	if g.dialect == "sqlserver" {
		g.seq++
		id.Name = "id" + strconv.Itoa(g.seq)
	}
	t.Cols = append(t.Cols, id)
	for n := 1 + g.r.Intn(4); n > 0; n-- {
		t.Cols = append(t.Cols, g.column(db, t))
	}
	if g.json && g.r.Intn(6) == 0 && g.dialect != "mysql" {
		t.Cols = append(t.Cols, &vCol{Name: "gen col", Type: "int", Gen: "(1 + 1)"})
	}
	if g.r.Intn(5) > 0 {
		cols := []string{id.Name}
		if g.r.Intn(4) == 0 {
			if more := g.pickCols(t, 1, func(c *vCol) bool { return c != id }); more != nil {
				cols = append(cols, more...)
			}
		}
		t.Cons = append(t.Cons, &vCon{Name: g.conName(t, "pkey", cols), Type: "PRIMARY KEY", Cols: cols})
		if g.r.Intn(2) == 0 {
			g.identity(id)
		}
	}
	for n := g.r.Intn(3); n > 0; n-- {
		g.addKey(db, t)
	}
	return t
}

func (g *vGen) identity(c *vCol) {
	c.Def = ""
	switch g.dialect {
	case "postgres":
		c.Ident = []string{"GENERATED BY DEFAULT AS IDENTITY", "GENERATED ALWAYS AS IDENTITY"}[g.r.Intn(2)]
	case "mysql":
		c.Autoinc = true
	default:
		c.Ident = "IDENTITY"
	}
}

// usedName reports whether an index or key of the table's schema has the name.
func usedName(db *vDB, t *vTable, name string) bool {
	if t.con(name) != nil || t.idx(name) != nil {
		return true
	}
	for _, o := range db.Tables {
		if o.Schema == t.Schema && (o.Name == name || o.con(name) != nil || o.idx(name) != nil) {
			return true
		}
	}
	return false
}

// addKey adds a unique constraint or an index.
func (g *vGen) addKey(db *vDB, t *vTable) {
	cols := g.pickCols(t, 2, nil)
	if cols == nil {
		return
	}
	if g.r.Intn(2) == 0 {
		c := &vCon{Name: g.conName(t, "key", cols), Type: "UNIQUE", Cols: cols}
		if g.dialect == "postgres" && g.r.Intn(5) == 0 {
			c.Deferrable = true
			c.Deferred = g.r.Intn(2) == 0
		}
		if !usedName(db, t, c.Name) {
			t.Cons = append(t.Cons, c)
		}
		return
	}
	x := &vIdx{Name: g.conName(t, "idx", cols), Cols: cols, Unique: g.r.Intn(4) == 0, Desc: make([]bool, len(cols))}
	switch {
	case g.dialect == "postgres" && g.r.Intn(5) == 0 && !x.Unique && len(cols) == 1:
		x.Type = "hash"
	case g.dialect == "mysql" && g.r.Intn(6) == 0:
		x.Type = "HASH"
	case g.dialect == "mysql" && g.r.Intn(6) == 0 && !x.Unique && !g.structs:
		x.Type = "FULLTEXT"
		for _, n := range cols {
			if vTypeNamed("mysql", t.col(n).Type).Group != "str" {
				x.Type = ""
			}
		}
	}
	if !g.structs && x.Type == "" && g.r.Intn(2) == 0 {
		x.Desc[g.r.Intn(len(cols))] = true
	}
	if !g.structs && g.dialect != "mysql" && x.Type == "" && g.r.Intn(4) == 0 {
		if more := g.pickCols(t, 1, func(c *vCol) bool { return !contains(cols, c.Name) }); more != nil {
			x.Incl = more
		}
	}
	if !g.structs && g.dialect != "mysql" && x.Type == "" && g.r.Intn(5) == 0 {
		x.Pred = "1 = 1"
	}
	if !usedName(db, t, x.Name) {
		t.Idxs = append(t.Idxs, x)
	}
}

// addFK adds a foreign key from a new column of the table.
func (g *vGen) addFK(db *vDB, t *vTable) {
	var refs []*vTable
	for _, o := range db.Tables {
		for _, c := range o.Cons {
			if (c.Type == "PRIMARY KEY" || c.Type == "UNIQUE") && !c.Deferrable {
				refs = append(refs, o)
				break
			}
		}
	}
	if len(refs) == 0 {
		return
	}
	ref := refs[g.r.Intn(len(refs))]
	var keys []*vCon
	for _, c := range ref.Cons {
		if (c.Type == "PRIMARY KEY" || c.Type == "UNIQUE") && !c.Deferrable {
			keys = append(keys, c)
		}
	}
	k := keys[g.r.Intn(len(keys))]
	fk := &vCon{Type: "FOREIGN KEY", RefSchema: ref.Schema, RefTable: ref.Name, RefCols: append([]string(nil), k.Cols...)}
	for _, n := range k.Cols {
		rc := ref.col(n)
		c := &vCol{Type: rc.Type, Coll: rc.Coll, Name: g.fresh([]string{simplify(ref.Name) + "_" + simplify(n), "parent", "Ref"}, func(s string) bool {
			for _, o := range t.Cols {
				if strings.EqualFold(o.Name, s) {
					return true
				}
			}
			return false
		})}
		if g.dialect == "sqlserver" {
			g.seq++
			c.Name += "_" + strconv.Itoa(g.seq)
		}
		t.Cols = append(t.Cols, c)
		fk.Cols = append(fk.Cols, c.Name)
	}
	fk.Name = g.conName(t, "fkey", fk.Cols)
	rules := []string{"", "", "CASCADE", "SET NULL"}
	if g.dialect != "sqlserver" {
		rules = append(rules, "RESTRICT")
	}
	fk.Upd, fk.Del = rules[g.r.Intn(len(rules))], rules[g.r.Intn(len(rules))]
	if g.dialect == "postgres" && g.r.Intn(4) == 0 {
		fk.Deferrable = true
		fk.Deferred = g.r.Intn(2) == 0
	}
	if !usedName(db, t, fk.Name) {
		t.Cons = append(t.Cons, fk)
	}
}

func simplify(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r == '_' {
			return r
		}
		return 'x'
	}, strings.ToLower(s))
}

// inFK reports whether the column is part of a foreign key, on either side.
func (db *vDB) inFK(t *vTable, col string) bool {
	for _, c := range t.Cons {
		if c.Type == "FOREIGN KEY" && contains(c.Cols, col) {
			return true
		}
	}
	fks, _ := db.referencedBy(t.Schema, t.Name)
	for _, fk := range fks {
		if contains(fk.RefCols, col) {
			return true
		}
	}
	return false
}

// mutate changes the declared schema. live says what exists, drop whether
// objects may be dropped.
func (g *vGen) mutate(db, live *vDB, drop bool) string {
	r := g.r
	d := g.dialect
	g.live = live
	if len(db.Tables) == 0 || len(db.Tables) < 6 && r.Intn(10) == 0 {
		t := g.table(db)
		db.Tables = append(db.Tables, t)
		return "add table"
	}
	t := db.Tables[r.Intn(len(db.Tables))]
	lt := live.table(t.Schema, t.Name)
	col := t.Cols[r.Intn(len(t.Cols))]
	var lc *vCol
	if lt != nil {
		lc = lt.col(col.Name)
	}
	frozen := db.inFK(t, col.Name) || lt != nil && live.inFK(lt, col.Name)
	vt := vTypeNamed(d, col.Type)
	pk := t.pk()
	inPK := pk != nil && contains(pk.Cols, col.Name)
	switch op := r.Intn(17); op {
	case 0: // drop a table
		inCur := 0
		for _, o := range db.Tables {
			if o.Schema == db.Cur {
				inCur++
			}
		}
		if t.Schema == db.Cur && inCur == 1 {
			return ""
		}
		fks, owners := db.referencedBy(t.Schema, t.Name)
		for i := range fks {
			owners[i].dropCon(fks[i].Name)
		}
		db.dropTable(t)
		return "drop table"
	case 1, 2:
		t.Cols = append(t.Cols, g.column(db, t))
		return "add column"
	case 3: // drop a column
		if len(t.Cols) < 2 || frozen || d == "sqlserver" && (col.Def != "" || lc != nil && lc.Def != "") && !(simpleName(t.Name) && simpleName(col.Name)) {
			return ""
		}
		for _, x := range t.Cols {
			for _, k := range t.Cons {
				if x.Autoinc && x != col && contains(k.Cols, x.Name) && contains(k.Cols, col.Name) {
					return ""
				}
			}
		}
		for i := len(t.Idxs) - 1; i >= 0; i-- {
			if contains(t.Idxs[i].Cols, col.Name) || contains(t.Idxs[i].Incl, col.Name) {
				t.dropIdx(t.Idxs[i].Name)
			}
		}
		for i := len(t.Cons) - 1; i >= 0; i-- {
			if contains(t.Cons[i].Cols, col.Name) {
				t.dropCon(t.Cons[i].Name)
			}
		}
		t.dropCol(col.Name)
		return "drop column"
	case 4, 5: // change the type
		if frozen || col.Gen != "" || col.OUCT || col.Autoinc || d == "sqlserver" && (col.Def != "" || lc != nil && lc.Def != "") {
			return ""
		}
		var cands []vType
		for _, c := range vTypes[d] {
			if c.Group == vt.Group && c.Canon != vt.Canon {
				cands = append(cands, c)
			}
		}
		if vt.Group != "str" && vt.Group != "lob" && col.Def == "" && (lc == nil || lc.Def == "") && col.Ident == "" && (lc == nil || lc.Ident == "") {
			for _, c := range vTypes[d] {
				if c.Canon == "varchar(255)" || c.Canon == "nvarchar(255)" {
					cands = append(cands, c)
				}
			}
		}
		if len(cands) == 0 {
			return ""
		}
		nt := cands[r.Intn(len(cands))]
		if !keyable(d, &vCol{Type: nt.Canon}) {
			for _, k := range t.Cons {
				if contains(k.Cols, col.Name) {
					return ""
				}
			}
			for _, x := range t.Idxs {
				if contains(x.Cols, col.Name) || contains(x.Incl, col.Name) {
					return ""
				}
			}
			if lt != nil {
				for _, k := range lt.Cons {
					if contains(k.Cols, col.Name) {
						return ""
					}
				}
				for _, x := range lt.Idxs {
					if contains(x.Cols, col.Name) || contains(x.Incl, col.Name) {
						return ""
					}
				}
			}
		}
		for _, x := range t.Idxs {
			if x.Type != "" && contains(x.Cols, col.Name) {
				return ""
			}
		}
		col.Type = nt.Canon
		if nt.Group != "str" {
			col.Coll = ""
		}
		return "change type"
	case 6, 7: // change the default
		if col.Ident != "" || col.Autoinc || col.Gen != "" || lc != nil && lc.Ident != "" {
			return ""
		}
		if d == "sqlserver" && lc != nil && lc.Def != "" && !(simpleName(t.Name) && simpleName(col.Name)) {
			return ""
		}
		if d == "sqlserver" && lc != nil && lc.Type != col.Type {
			return ""
		}
		if r.Intn(3) == 0 {
			col.Def = ""
		} else {
			col.Def = g.defaultFor(vt.Group)
		}
		return "change default"
	case 8, 9: // change nullability
		if inPK || col.Ident != "" || col.Autoinc || col.Gen != "" {
			return ""
		}
		if d == "sqlserver" && (!col.NotNull || lc != nil && !lc.NotNull || db.inFK(t, col.Name) || frozen || col.Def != "" && false) {
			return ""
		}
		if frozen && d != "postgres" {
			return ""
		}
		col.NotNull = !col.NotNull
		return "change nullability"
	case 10: // identity
		if d != "postgres" || vt.Group != "int" || frozen && col.Ident == "" || col.Gen != "" {
			return ""
		}
		if col.Ident != "" {
			col.Ident = ""
			col.NotNull = inPK || r.Intn(2) == 0
			return "drop identity"
		}
		if lc != nil && (lc.Ident != "" || vTypeNamed(d, lc.Type).Group != "int") {
			return ""
		}
		g.identity(col)
		return "add identity"
	case 11: // collation
		if vt.Group != "str" || frozen || d == "sqlserver" && lc != nil && lc.Type != col.Type {
			return ""
		}
		if col.Coll != "" && r.Intn(2) == 0 {
			col.Coll = ""
		} else {
			col.Coll = vCollations[d][r.Intn(len(vCollations[d]))]
		}
		return "change collation"
	case 12:
		g.addKey(db, t)
		return "add key"
	case 13: // drop a key, a foreign key or an index
		n := len(t.Cons) + len(t.Idxs)
		if n == 0 {
			return ""
		}
		if i := r.Intn(n); i < len(t.Cons) {
			c := t.Cons[i]
			if c.Type == "CHECK" {
				return ""
			}
			if c.Type != "FOREIGN KEY" {
				if db.keyInUse(t, c) != "" || lt != nil && live.keyInUse(lt, c) != "" {
					return ""
				}
				for _, x := range t.Cols {
					if x.Autoinc && contains(c.Cols, x.Name) {
						return ""
					}
				}
			}
			if c.Type == "PRIMARY KEY" && (d == "sqlserver" || r.Intn(2) == 0) {
				// The columns stay NOT NULL.
				for _, n := range c.Cols {
					t.col(n).NotNull = true
				}
			} else if c.Type == "PRIMARY KEY" {
				for _, n := range c.Cols {
					if k := t.col(n); k.Ident == "" && !k.Autoinc {
						k.NotNull = false
					}
				}
			}
			t.dropCon(c.Name)
			return "drop " + strings.ToLower(c.Type)
		} else {
			x := t.Idxs[i-len(t.Cons)]
			if x.Unique {
				fks, _ := live.referencedBy(t.Schema, t.Name)
				if len(fks) > 0 {
					return ""
				}
			}
			t.dropIdx(x.Name)
		}
		return "drop index"
	case 14:
		g.addFK(db, t)
		return "add foreign key"
	case 15: // another primary key, or deferrability
		if d == "postgres" && r.Intn(2) == 0 {
			for _, c := range t.Cons {
				if c.Type == "CHECK" || c.Type != "FOREIGN KEY" && (db.keyInUse(t, c) != "" || lt != nil && live.keyInUse(lt, c) != "") {
					continue
				}
				c.Deferrable = r.Intn(2) == 0
				c.Deferred = c.Deferrable && r.Intn(2) == 0
				return "change deferrability"
			}
		}
		if pk != nil {
			if db.keyInUse(t, pk) != "" {
				return ""
			}
			if lt != nil && lt.pk() != nil && (live.keyInUse(lt, lt.pk()) != "") {
				return ""
			}
			for _, x := range t.Cols {
				if x.Autoinc {
					return ""
				}
			}
		}
		if lt != nil {
			for _, x := range lt.Cols {
				if x.Autoinc {
					return ""
				}
			}
		}
		cols := g.pickCols(t, 2, func(c *vCol) bool {
			if d != "sqlserver" {
				return true
			}
			var o *vCol
			if lt != nil {
				o = lt.col(c.Name)
			}
			return (o == nil || o.NotNull) && c.NotNull
		})
		if cols == nil {
			return ""
		}
		name := g.conName(t, "pkey", cols)
		if pk != nil && pk.Name == name && d != "mysql" || d != "mysql" && usedName(db, t, name) {
			return ""
		}
		if pk != nil {
			// What the old key implied stays declared.
			for _, n := range pk.Cols {
				t.col(n).NotNull = true
			}
			t.dropCon(pk.Name)
		}
		t.Cons = append(t.Cons, &vCon{Name: name, Type: "PRIMARY KEY", Cols: cols})
		return "change primary key"
	case 16: // schemas
		if r.Intn(2) == 0 && len(db.Schemas) < 3 {
			g.seq++
			n := []string{"app", "Sales Dept", "archive", "order", "o'brien"}[r.Intn(5)] + strconv.Itoa(g.seq)
			db.Schemas[n] = true
			nt := g.table(db)
			nt.Schema = n
			db.Tables = append(db.Tables, nt)
			return "add schema"
		}
		if t.Schema != db.Cur {
			s := t.Schema
			for i := len(db.Tables) - 1; i >= 0; i-- {
				o := db.Tables[i]
				if o.Schema != s {
					continue
				}
				fks, owners := db.referencedBy(o.Schema, o.Name)
				for j := range fks {
					owners[j].dropCon(fks[j].Name)
				}
				db.dropTable(o)
			}
			delete(db.Schemas, s)
			return "drop schema"
		}
	}
	return ""
}

// reconcile undoes the changes of the declaration that generate does not
// track: a constraint or index of the same name with another definition.
func (g *vGen) reconcile(db, live *vDB, drop bool) {
	for _, t := range db.Tables {
		lt := live.table(t.Schema, t.Name)
		if lt == nil {
			continue
		}
		// A key that foreign keys use stays: generate does not recreate them.
		for _, lk := range lt.Cons {
			ok := t.con(lk.Name) == nil && live.keyInUse(lt, lk) != ""
			for _, n := range lk.Cols {
				ok = ok && t.col(n) != nil
			}
			if ok {
				if pk := t.pk(); pk != nil && lk.Type == "PRIMARY KEY" {
					t.dropCon(pk.Name)
				}
				t.Cons = append(t.Cons, lk.clone())
			}
		}
		for i := len(t.Cons) - 1; i >= 0; i-- {
			c := t.Cons[i]
			lcon := lt.con(c.Name)
			if lcon == nil || g.dialect == "mysql" && c.Type == "PRIMARY KEY" {
				continue
			}
			fixed := lcon.clone()
			if c.Type == lcon.Type && live.keyInUse(lt, lcon) == "" {
				fixed.Deferrable, fixed.Deferred = c.Deferrable, c.Deferred
			}
			ok := true
			for _, n := range fixed.Cols {
				ok = ok && t.col(n) != nil
			}
			if fixed.Type == "FOREIGN KEY" {
				ref := db.table(fixed.RefSchema, fixed.RefTable)
				ok = ok && ref != nil
				for _, n := range fixed.RefCols {
					ok = ok && ref != nil && ref.col(n) != nil
				}
			}
			if !ok {
				t.dropCon(c.Name)
				continue
			}
			*c = *fixed
		}
		for i := len(t.Idxs) - 1; i >= 0; i-- {
			x := t.Idxs[i]
			lx := lt.idx(x.Name)
			if lx == nil {
				continue
			}
			ok := true
			for _, n := range append(append([]string(nil), lx.Cols...), lx.Incl...) {
				ok = ok && t.col(n) != nil
			}
			if !ok {
				t.dropIdx(x.Name)
				continue
			}
			*x = *lx.clone()
		}
		for _, lc := range lt.Cols {
			if drop && g.dialect == "sqlserver" && lc.Def != "" && t.col(lc.Name) == nil && !(simpleName(lc.Name) && simpleName(t.Name)) {
				c := *lc
				t.Cols = append(t.Cols, &c)
			}
		}
		for _, c := range t.Cols {
			lc := lt.col(c.Name)
			if lc == nil {
				continue
			}
			if g.dialect == "sqlserver" && lc.NotNull && live.inFK(lt, lc.Name) {
				c.NotNull = true
			}
			c.Autoinc, c.OUCT, c.Gen = lc.Autoinc, lc.OUCT, lc.Gen
			if c.Ident != "" && lc.Ident != "" {
				c.Ident = lc.Ident
			}
			if c.Autoinc {
				c.Def = ""
			}
		}
	}
}

// target is the schema that must exist after the migration.
func target(db, live *vDB, drop bool) *vDB {
	out := db.clone()
	if !drop {
		for s := range live.Schemas {
			out.Schemas[s] = true
		}
		for _, lt := range live.Tables {
			t := out.table(lt.Schema, lt.Name)
			if t == nil {
				out.Tables = append(out.Tables, lt.clone())
				continue
			}
			for _, c := range lt.Cols {
				if t.col(c.Name) == nil {
					cc := *c
					t.Cols = append(t.Cols, &cc)
				}
			}
			for _, c := range lt.Cons {
				if t.con(c.Name) == nil && !(c.Type == "PRIMARY KEY" && t.pk() != nil) {
					t.Cons = append(t.Cons, c.clone())
				}
			}
			for _, x := range lt.Idxs {
				if t.idx(x.Name) == nil {
					t.Idxs = append(t.Idxs, x.clone())
				}
			}
		}
	}
	for _, t := range out.Tables {
		lt := live.table(t.Schema, t.Name)
		if lt == nil {
			continue
		}
		// Checks are not managed: they stay.
		for _, c := range lt.Cons {
			if c.Type == "CHECK" && t.con(c.Name) == nil {
				t.Cons = append(t.Cons, c.clone())
			}
		}
		if out.Dialect == "sqlserver" {
			for _, c := range t.Cols {
				// Only IDENTITY of a new column exists (a warning says so).
				if lc := lt.col(c.Name); lc != nil {
					c.Ident = lc.Ident
				}
			}
		}
	}
	out.implied()
	return out
}

// ---- the declared schema as files ---------------------------------------------

func (g *vGen) structSource(db *vDB) string {
	r := g.r
	var b strings.Builder
	b.WriteString("package tables\n\nimport \"github.com/bokwoon95/sq\"\n\n")
	for i, t := range db.Tables {
		type field struct {
			name, typ, tag string
			mods           []string
		}
		first := &field{typ: "sq.TableStruct"}
		structName := "T" + strconv.Itoa(i)
		switch {
		case t.Schema != db.Cur || r.Intn(8) == 0:
			first.tag = t.Schema + "." + t.Name
		case simpleName(t.Name) && r.Intn(3) > 0:
			structName = strings.ToUpper(t.Name)
		default:
			first.tag = t.Name
		}
		var fields []*field
		by := map[string]*field{}
		for j, c := range t.Cols {
			vt := vTypeNamed(g.dialect, c.Type)
			f := &field{name: "F" + strconv.Itoa(j), typ: "sq." + vt.Field, tag: c.Name}
			if simpleName(c.Name) && r.Intn(3) > 0 {
				f.name, f.tag = strings.ToUpper(c.Name), ""
			}
			typ := vt.Decl[r.Intn(len(vt.Decl))]
			if strings.ContainsAny(typ, " '\"") {
				typ = "{" + typ + "}"
			}
			f.mods = append(f.mods, g.prefix()+"type="+typ)
			implied := g.dialect == "postgres" && c.Ident != "" || c.Autoinc
			if pk := t.pk(); pk != nil && contains(pk.Cols, c.Name) {
				implied = true
			}
			if c.NotNull && !(implied && r.Intn(2) == 0) {
				f.mods = append(f.mods, "notnull")
			}
			if c.Def != "" {
				text := c.Def
				for _, d := range vDefaults(g.dialect, vt.Group) {
					if d.Canon == c.Def {
						text = d.Decl[r.Intn(len(d.Decl))]
					}
				}
				if strings.ContainsAny(text, " ") || strings.HasPrefix(text, "{") {
					text = "{" + text + "}"
				}
				f.mods = append(f.mods, g.prefix()+"default="+text)
			}
			switch {
			case c.Gen != "":
				f.mods = append(f.mods, "generated")
			case c.Autoinc:
				f.mods = append(f.mods, "auto_increment")
			case c.Ident == "GENERATED ALWAYS AS IDENTITY":
				f.mods = append(f.mods, "alwaysidentity")
			case c.Ident != "":
				f.mods = append(f.mods, "identity")
			}
			if c.OUCT {
				f.mods = append(f.mods, "onupdatecurrenttimestamp")
			}
			if c.Coll != "" {
				f.mods = append(f.mods, g.prefix()+"collate="+c.Coll)
			}
			by[c.Name] = f
			fields = append(fields, f)
		}
		var extra []*field
		level := func(m string) {
			if r.Intn(2) == 0 {
				first.mods = append(first.mods, m)
				return
			}
			extra = append(extra, &field{name: "_", typ: "struct{}", mods: []string{m}})
		}
		for _, c := range t.Cons {
			var subs []string
			if c.Deferred {
				subs = append(subs, "deferred")
			} else if c.Deferrable {
				subs = append(subs, "deferrable")
			}
			switch c.Type {
			case "PRIMARY KEY", "UNIQUE":
				word := map[string]string{"PRIMARY KEY": "primarykey", "UNIQUE": "unique"}[c.Type]
				if len(c.Cols) == 1 && (r.Intn(2) == 0 || strings.Contains(c.Cols[0], " ")) {
					by[c.Cols[0]].mods = append(by[c.Cols[0]].mods, modWith(word, ".", subs))
				} else {
					level(modWith(word, strings.Join(c.Cols, ","), subs))
				}
			case "FOREIGN KEY":
				ref := c.RefTable
				if c.RefSchema != db.Cur || r.Intn(8) == 0 {
					ref = c.RefSchema + "." + ref + "." + strings.Join(c.RefCols, ",")
				} else {
					ref += "." + strings.Join(c.RefCols, ",")
				}
				if c.Upd != "" {
					subs = append(subs, "onupdate="+ruleWord(c.Upd))
				}
				if c.Del != "" {
					subs = append(subs, "ondelete="+ruleWord(c.Del))
				}
				if len(c.Cols) == 1 && r.Intn(2) == 0 {
					by[c.Cols[0]].mods = append(by[c.Cols[0]].mods, modWith("references", ref, subs))
				} else {
					subs = append([]string{"references=" + brace(ref)}, subs...)
					level(modWith("foreignkey", strings.Join(c.Cols, ","), subs))
				}
			}
		}
		for _, x := range t.Idxs {
			var subs []string
			if x.Unique {
				subs = append(subs, "unique")
			}
			if x.Type != "" {
				subs = append(subs, "using="+strings.ToLower(x.Type))
			}
			if len(x.Cols) == 1 && r.Intn(2) == 0 {
				by[x.Cols[0]].mods = append(by[x.Cols[0]].mods, modWith("index", ".", subs))
			} else {
				level(modWith("index", strings.Join(x.Cols, ","), subs))
			}
		}
		b.WriteString("type " + structName + " struct {\n")
		for _, f := range append(append([]*field{first}, fields...), extra...) {
			b.WriteString("\t")
			if f.name != "" {
				b.WriteString(f.name + " ")
			}
			b.WriteString(f.typ)
			var tags []string
			if f.tag != "" {
				tags = append(tags, "sq:"+strconv.Quote(f.tag))
			}
			if len(f.mods) > 0 {
				tags = append(tags, "ddl:"+strconv.Quote(strings.Join(f.mods, " ")))
			}
			if len(tags) > 0 {
				b.WriteString(" `" + strings.Join(tags, " ") + "`")
			}
			b.WriteString("\n")
		}
		b.WriteString("}\n\n")
	}
	return b.String()
}

func (g *vGen) prefix() string {
	if g.r.Intn(8) == 0 {
		return g.dialect + ":"
	}
	return ""
}

// ---- running ------------------------------------------------------------------

type vFile struct {
	name, text string
}

// vGenerate runs `sqddl generate` and returns the files it wrote, in order.
func vGenerate(t *T, dialect string, src *vDB, destFile, tag string, drop bool) (files []vFile, stderr string, err error) {
	return vGenerateFrom(t, dialect, src.catalog(), destFile, tag, drop)
}

func vGenerateFrom(t *T, dialect string, src *ddl.Catalog, destFile, tag string, drop bool) (files []vFile, stderr string, err error) {
	dir := t.Dir()
	srcFile := filepath.Join(dir, tag+"_src.json")
	text, e := json.Marshal(src)
	must(e)
	must(os.WriteFile(srcFile, text, 0o644))
	out := filepath.Join(dir, tag+"_out")
	must(os.MkdirAll(out, 0o755))
	args := []string{"-src", srcFile, "-dest", destFile, "-output-dir", out, "-dialect", dialect, "-accept-warnings", "-prefix", "20230101"}
	if drop {
		args = append(args, "-drop-objects")
	}
	cmd, err := ddl.GenerateCommand(args...)
	if err != nil {
		return nil, "", err
	}
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Run(); err != nil {
		return nil, buf.String(), err
	}
	entries, e := os.ReadDir(out)
	must(e)
	for _, en := range entries {
		b, e := os.ReadFile(filepath.Join(out, en.Name()))
		must(e)
		files = append(files, vFile{en.Name(), string(b)})
	}
	sort.Slice(files, func(i, j int) bool { return files[i].name < files[j].name })
	return files, buf.String(), nil
}

// vApply applies the files, as migrate would, to the model server.
func vApply(t *T, db *vDB, files []vFile) error {
	for _, f := range files {
		if strings.HasSuffix(f.name, ".undo.sql") {
			continue
		}
		stmts, err := vSplit(db.Dialect, f.text)
		if err != nil {
			return fmt.Errorf("%s: %v", f.name, err)
		}
		inTx := db.Dialect != "mysql" && !strings.HasSuffix(f.name, ".txoff.sql") || len(stmts) > 1
		db.vars = nil // a file is one batch
		if len(stmts) == 0 {
			t.Count("empty_files", 1)
		}
		for _, s := range stmts {
			t.Count("statements", 1)
			if strings.Contains(s, "ALTER COLUMN") || strings.Contains(s, "MODIFY COLUMN") {
				t.Count("alter_column", 1)
			}
			if err := db.apply(s, inTx); err != nil {
				return fmt.Errorf("%s: %s\nserver: %v", f.name, s, err)
			}
		}
	}
	return nil
}

func vNewDB(dialect string, r *rand.Rand) *vDB {
	db := &vDB{Dialect: dialect, Schemas: map[string]bool{}, Coll: vDefaultColl[dialect]}
	switch dialect {
	case "postgres":
		db.Cur, db.Version = "public", [][]int{{14, 2}, {12, 9}, {11, 5}, {13}}[r.Intn(4)]
	case "mysql":
		db.Cur, db.Version = "sakila", []int{8, 0, 29}
	case "sqlserver":
		db.Cur, db.Version = "dbo", []int{15, 0}
	}
	db.Schemas[db.Cur] = true
	return db
}

func dumpFiles(files []vFile) string {
	var b strings.Builder
	for _, f := range files {
		b.WriteString("-- " + f.name + "\n" + f.text)
	}
	return b.String()
}

// g03Step generates the migration from live to the declared schema, applies it
// to live and checks the result.
func g03Step(t *T, live, decl *vDB, destFile, destText, tag, label string, drop bool) ([]vFile, bool) {
	want := target(decl, live, drop)
	before := live.clone()
	files, _, err := vGenerate(t, live.Dialect, live, destFile, tag, drop)
	if err != nil {
		t.Failf("generate-error", "%s (drop=%v): generate fails: %v\nlive:\n%s\ndeclared:\n%s", label, drop, err, strings.Join(before.facts(), "\n"), destText)
		return files, false
	}
	t.Count("steps", 1)
	t.Count("steps_"+live.Dialect, 1)
	if drop {
		t.Count("steps_drop", 1)
	}
	if err := vApply(t, live, files); err != nil {
		t.Failf("rejected", "%s (drop=%v): the server rejects the migration: %v\nfiles:\n%s\nbefore:\n%s\ndeclared:\n%s", label, drop, err, dumpFiles(files), strings.Join(before.facts(), "\n"), destText)
		return files, false
	}
	if diff := diffLists(want.facts(), live.facts()); diff != "" {
		t.Failf("wrong-schema", "%s (drop=%v): the migration does not produce the declared schema:\n%s\nfiles:\n%s\nbefore:\n%s\ndeclared:\n%s", label, drop, diff, dumpFiles(files), strings.Join(before.facts(), "\n"), destText)
		return files, false
	}
	again, _, err := vGenerate(t, live.Dialect, live, destFile, tag+"_again", drop)
	if err != nil || len(again) > 0 {
		t.Failf("not-converged", "%s (drop=%v): generating again from the result writes files (err=%v):\n%s\nfiles:\n%s\nlive:\n%s\ndeclared:\n%s", label, drop, err, dumpFiles(again), dumpFiles(files), strings.Join(live.facts(), "\n"), destText)
		return files, false
	}
	t.Count("second_generate_empty", 1)
	return files, true
}

func g03History(t *T, dialect string) {
	vHistory(t, dialect, vNewDB(dialect, t.Rng), g03Step)
}

// vStep generates and applies one migration, and says whether to go on.
type vStep func(t *T, live, decl *vDB, destFile, destText, tag, label string, drop bool) ([]vFile, bool)

// vHistory walks through random declared schemas.
func vHistory(t *T, dialect string, live *vDB, apply vStep) {
	r := t.Rng
	g := &vGen{r: r, dialect: dialect}
	mode := r.Intn(5)
	g.structs = mode < 4
	g.json = mode == 4
	decl := live.clone()
	steps := 2 + r.Intn(4)
	for step := 0; step < steps; step++ {
		drop := r.Intn(2) == 0
		var ops []string
		n := 1 + r.Intn(4)
		if step == 0 {
			for i := 1 + r.Intn(3); i > 0; i-- {
				decl.Tables = append(decl.Tables, g.table(decl))
			}
			if !hasCur(decl) {
				decl.Tables[0].Schema = decl.Cur
			}
			n = 2
		}
		for i := 0; i < n*3 && len(ops) < n; i++ {
			if op := g.mutate(decl, live, drop); op != "" {
				ops = append(ops, op)
			}
		}
		// A declared column that is added to a table is nullable or has a
		// default, and schemas have tables: structs cannot say more.
		g.reconcile(decl, live, drop)
		for s := range decl.Schemas {
			used := s == decl.Cur
			for _, tb := range decl.Tables {
				used = used || tb.Schema == s
			}
			if !used {
				delete(decl.Schemas, s)
			}
		}
		// Something the tool does not manage appears in the live database.
		if step > 0 && r.Intn(4) == 0 && len(live.Tables) > 0 {
			lt := live.Tables[r.Intn(len(live.Tables))]
			name := fmt.Sprintf("manual_check%d", step)
			if lt.con(name) == nil {
				lt.Cons = append(lt.Cons, &vCon{Name: name, Type: "CHECK", Expr: "1 = 1"})
				ops = append(ops, "manual check")
			}
		}
		if step > 0 && r.Intn(5) == 0 && len(live.Tables) > 0 {
			lt := live.Tables[r.Intn(len(live.Tables))]
			if dt := decl.table(lt.Schema, lt.Name); dt != nil && dt.col("gen_col") == nil && lt.col("gen_col") == nil {
				c := &vCol{Name: "gen_col", Type: "int", Gen: "(1 + 1)"}
				lt.nextID++
				c.id = lt.nextID
				lt.Cols = append(lt.Cols, c)
				cc := *c
				dt.Cols = append(dt.Cols, &cc)
				ops = append(ops, "manual generated column")
			}
		}
		decl.implied()
		tag := "s" + strconv.Itoa(step)
		var destFile, destText string
		if g.structs && r.Intn(10) < 7 {
			destText = g.structSource(decl)
			destFile = filepath.Join(t.Dir(), tag+"_tables.go")
			t.Count("dest_structs", 1)
		} else {
			b, err := json.MarshalIndent(decl.catalog(), "", " ")
			must(err)
			destText = string(b)
			destFile = filepath.Join(t.Dir(), tag+"_dest.json")
			t.Count("dest_json", 1)
		}
		must(os.WriteFile(destFile, []byte(destText), 0o644))
		files, ok := apply(t, live, decl, destFile, destText, tag, fmt.Sprintf("step %d %v", step, ops), drop)
		if !ok {
			return
		}
		for _, op := range ops {
			t.Count("op_"+strings.ReplaceAll(op, " ", "_"), 1)
		}
		t.Sig(fmt.Sprint(dialect, drop, ops))
		t.Sample("%s drop=%v %v: %d files, %d facts", dialect, drop, ops, len(files), len(live.facts()))
		// Lingering objects of a kept schema stay declared nowhere.
		for s := range live.Schemas {
			if s == live.Cur {
				decl.Schemas[s] = true
			}
		}
	}
}

func hasCur(db *vDB) bool {
	for _, t := range db.Tables {
		if t.Schema == db.Cur {
			return true
		}
	}
	return false
}

func g03Probes() []Case {
	probe := func(id, dialect, live, change, dest string) Case {
		return Case{ID: "probe-" + id, Run: func(t *T) {
			db := vNewDB(dialect, rand.New(rand.NewSource(1)))
			script := func(db *vDB, text string) {
				stmts, err := vSplit(dialect, text)
				must(err)
				for _, s := range stmts {
					must(db.apply(s, false))
				}
			}
			script(db, live)
			decl := db.clone()
			script(decl, change)
			decl.implied()
			destFile := filepath.Join(t.Dir(), "tables.go")
			if dest == "" {
				b, err := json.MarshalIndent(decl.catalog(), "", " ")
				must(err)
				dest, destFile = string(b), filepath.Join(t.Dir(), "dest.json")
			}
			must(os.WriteFile(destFile, []byte(dest), 0o644))
			if _, ok := g03Step(t, db, decl, destFile, dest, "probe", id, true); ok {
				t.Count("probes", 1)
				t.Sig("probe " + id)
			}
		}}
	}
	var keys, fk strings.Builder
	for i := 0; i < 52; i++ {
		fmt.Fprintf(&keys, "ALTER TABLE a ADD CONSTRAINT key_%02d UNIQUE (x, c%d);\n", i, i)
	}
	var cols []string
	for i := 0; i < 52; i++ {
		cols = append(cols, fmt.Sprintf("c%d INT", i))
	}
	fk.WriteString(keys.String() + "ALTER TABLE b ADD CONSTRAINT b_fkey FOREIGN KEY (y, z) REFERENCES a (x, c10);\n")
	return []Case{
		probe("many-files", "postgres", "CREATE TABLE a (x INT, "+strings.Join(cols, ", ")+");\nCREATE TABLE b (y INT, z INT);", fk.String(), ""),
		probe("many-files-sqlserver", "sqlserver", "CREATE TABLE a (x INT, "+strings.Join(cols, ", ")+");\nCREATE TABLE b (y INT, z INT);", fk.String(), ""),
		probe("two-defaults", "sqlserver", "CREATE TABLE t (a INT DEFAULT 1, b INT DEFAULT 2, c INT);", "BEGIN DECLARE @n NVARCHAR(9); SELECT @n = default_constraints.name FROM sys.default_constraints WHERE parent_column_id = 1; EXEC('ALTER TABLE t DROP CONSTRAINT ' + @n); END; BEGIN SET @n = NULL; SELECT @n = default_constraints.name FROM sys.default_constraints WHERE parent_column_id = 2; EXEC('ALTER TABLE t DROP CONSTRAINT ' + @n); END;", ""),
		probe("set-not-null", "sqlserver", "CREATE TABLE t (id INT NOT NULL, a INT);", "ALTER TABLE t ALTER COLUMN a INT NOT NULL;", ""),
		probe("default-of-same-name", "sqlserver", "CREATE TABLE t (a INT DEFAULT 1, b INT DEFAULT 2);\nCREATE TABLE u (b INT, a INT);", "BEGIN DECLARE @n NVARCHAR(9); SELECT @n = default_constraints.name FROM sys.default_constraints WHERE parent_column_id = 1; EXEC('ALTER TABLE t DROP CONSTRAINT ' + @n); END;", ""),
		probe("default-with-space", "sqlserver", "CREATE TABLE t ([first name] INT DEFAULT 1, b INT);", "BEGIN DECLARE @n NVARCHAR(9); SELECT @n = default_constraints.name FROM sys.default_constraints; EXEC('ALTER TABLE t DROP CONSTRAINT ' + QUOTENAME(@n)); END;", ""),
		probe("identity-without-notnull", "sqlserver", "CREATE TABLE t (id INT NOT NULL IDENTITY, b INT);", "", "package tables\n\nimport \"github.com/bokwoon95/sq\"\n\ntype T struct {\n\tsq.TableStruct\n\tID sq.NumberField `ddl:\"type=INT identity\"`\n\tB sq.NumberField `ddl:\"type=INT\"`\n}\n"),
	}
}
