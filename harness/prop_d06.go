package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

// D06: what dump writes for PostgreSQL, MySQL and SQL Server rebuilds the
// database. The database is described by a vDB, shown to the command through
// emulated system catalogs, and rebuilt from the scripts by the strict DDL
// interpreter of vsql.go.

func init() {
	register(&Prop{
		ID:    "D06",
		Level: "exploration",
		Rule:  "Fails when a server as strict as PostgreSQL, MySQL or SQL Server would reject a statement of the dumped scripts run in the order schema.sql, indexes.sql, constraints.sql, or when schemas, enums, domains, extensions, tables, columns, indexes and constraints afterwards are not those of the dumped database.",
		Assumptions: []string{
			"PostgreSQL, MySQL and SQL Server are represented by emulated system catalogs and by an interpreter of DDL.",
			"Views, routines, triggers and comments are not part of a dump.",
		},
		MinCounts: map[string]int64{"rebuilt": 60, "rebuilt_postgres": 20, "rebuilt_mysql": 20, "rebuilt_sqlserver": 20, "statements": 500, "foreign_keys": 30, "cross_schema_keys": 5, "enums": 10, "domains": 10, "enum_columns": 10, "domain_columns": 10},
		Cases: func(tier string, seed int64) (cases []Case) {
			n := map[string]int{"quick": 500, "thorough": 6000}[tier]
			for i := 0; i < n; i++ {
				for _, d := range []string{"postgres", "mysql", "sqlserver"} {
					d := d
					cases = append(cases, Case{ID: fmt.Sprintf("schema/%s/%d", d, i), Run: func(t *T) { d06Schema(t, d) }})
				}
			}
			return cases
		},
	})
	emulated := []string{
		"PostgreSQL, MySQL and SQL Server are represented by emulated system catalogs and by rows kept in SQLite.",
		"Values reach the command as the Go types that lib/pq, pgx, go-sql-driver/mysql and go-mssqldb use, which were taken from the sources of these drivers.",
	}
	register(&Prop{
		ID:          "D07",
		Level:       "exploration",
		Rule:        "Fails when a field of a dumped CSV file does not denote the value of the row it belongs to, when rows are missing, twice or foreign, or when the value a load of that file sends is not the value that was dumped.",
		Assumptions: emulated,
		MinCounts:   map[string]int64{"fields": 5000, "loaded_values": 3000, "round_trips_postgres": 100, "round_trips_mysql": 100, "round_trips_sqlserver": 100},
		Cases:       d06Cases("data", map[string]int{"quick": 600, "thorough": 12000}, d06Data),
	})
	register(&Prop{
		ID:          "D08",
		Level:       "exploration",
		Rule:        "Fails when a dump with subset queries fails, lacks a row that the subset needs, has a row that does not belong to it, or has a row whose reference dangles; and when the server would reject a statement because of the type of a literal.",
		Assumptions: append([]string{"An extended subset along several foreign key paths to one table is only checked for the rows next to the selected ones (see D02)."}, emulated...),
		MinCounts:   map[string]int64{"subset_rows": 3000, "subsets_across_schemas": 100, "subsets_postgres": 100, "subsets_mysql": 100, "subsets_sqlserver": 100},
		Cases:       d06Cases("subset", map[string]int{"quick": 600, "thorough": 12000}, d06Subset),
	})
}

func d06Cases(name string, n map[string]int, run func(*T, string)) func(tier string, seed int64) []Case {
	return func(tier string, seed int64) (cases []Case) {
		for i := 0; i < n[tier]; i++ {
			for _, d := range []string{"postgres", "mysql", "sqlserver"} {
				d := d
				cases = append(cases, Case{ID: fmt.Sprintf("%s/%s/%d", name, d, i), Run: func(t *T) { run(t, d) }})
			}
		}
		return cases
	}
}

// versionText writes a version the way the server reports it.
func versionText(nums []int) string {
	s := fmt.Sprint(nums)
	return strings.ReplaceAll(strings.Trim(s, "[]"), " ", ".")
}

// d06Random makes a database with tables, keys and indexes.
func d06Random(t *T, dialect string) *vDB {
	r := t.Rng
	db := vNewDB(dialect, r)
	empty := db.clone()
	g := &vGen{r: r, dialect: dialect, json: true}
	for i := 2 + r.Intn(3); i > 0; i-- {
		db.Tables = append(db.Tables, g.table(db))
	}
	for i := r.Intn(10); i > 0; i-- {
		g.mutate(db, empty, true)
	}
	for i := r.Intn(5); i > 0; i-- {
		g.addKey(db, db.Tables[r.Intn(len(db.Tables))])
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		g.addFK(db, db.Tables[r.Intn(len(db.Tables))])
	}
	for s := range db.Schemas {
		used := s == db.Cur
		for _, tb := range db.Tables {
			used = used || tb.Schema == s
		}
		if !used {
			delete(db.Schemas, s)
		}
	}
	return target(db, empty, true)
}

// d06Facts are the facts of a database with the text of its expressions.
func d06Facts(db *vDB) []string {
	out := db.facts()
	for _, t := range db.Tables {
		for _, c := range t.Cols {
			if c.Gen != "" {
				out = append(out, fmt.Sprintf("generated %q.%q.%q %s", t.Schema, t.Name, c.Name, bare(reStored.ReplaceAllString(c.Gen, ""))))
			}
		}
		for _, c := range t.Cons {
			if c.Expr != "" {
				out = append(out, fmt.Sprintf("check %q.%q.%q %s", t.Schema, t.Name, c.Name, bare(c.Expr)))
			}
		}
	}
	sort.Strings(out)
	return out
}

func d06Schema(t *T, dialect string) {
	r := t.Rng
	db := d06Random(t, dialect)
	cat := db.catalog()
	for i := range cat.Schemas {
		for j := range cat.Schemas[i].Tables {
			tb := &cat.Schemas[i].Tables[j]
			for k := range tb.Constraints {
				// The emulated catalogs take the usual rule as an empty one.
				c := &tb.Constraints[k]
				c.UpdateRule, c.DeleteRule = strings.TrimPrefix(c.UpdateRule, "NO ACTION"), strings.TrimPrefix(c.DeleteRule, "NO ACTION")
			}
		}
	}
	extra := []string{}
	if dialect == "postgres" {
		extra = d06Types(t, db, cat)
	}
	sdb, _, _ := newServerDB(t, dialect, versionText(db.Version), cat)
	out := filepath.Join(t.Dir(), "out")
	cmd := &ddl.DumpCmd{DB: sdb, Dialect: dialect, OutputDir: out, SchemaOnly: true, Stderr: &lockedBuffer{}}
	prefix := ""
	switch r.Intn(4) {
	case 0:
		cmd.Zip, prefix = "d.zip", "d.zip!"
	case 1:
		cmd.Tgz, prefix = "d.tgz", "d.tgz!"
	}
	var err error
	if p := recovered(func() { err = cmd.Run() }); p != nil {
		t.Failf("panic", "dump panicked: %v", p)
		return
	}
	if notEmulated(err) {
		t.Count("not_emulated", 1)
		t.Note("not emulated: %v", err)
		return
	}
	if err != nil {
		t.Failf("dump-error", "dump fails: %v\ndatabase:\n%s", err, strings.Join(d06Facts(db), "\n"))
		return
	}
	tree := x01Tree(out)
	got := vNewDB(dialect, r)
	got.Version = db.Version
	got.UDT = map[string]bool{}
	var files []vFile
	for _, name := range []string{"schema.sql", "indexes.sql", "constraints.sql"} {
		if text, ok := tree[prefix+name]; ok {
			files = append(files, vFile{name, text})
		}
	}
	var types []string
	for _, f := range files {
		stmts, err := vSplit(dialect, f.text)
		if err != nil {
			t.Failf("rejected", "%s: %v\n%s", f.name, err, f.text)
			return
		}
		for _, s := range stmts {
			if toks, err := vLex(dialect, s); err == nil && len(toks) == 0 {
				continue // a comment
			}
			t.Count("statements", 1)
			if fact, ok := d06TypeStatement(got, s); ok && dialect == "postgres" {
				types = append(types, fact)
				continue
			}
			if err := got.apply(s, false); err != nil {
				t.Failf("rejected", "%s: %s\nserver: %v\nfiles:\n%s\ndatabase:\n%s", f.name, s, err, dumpFiles(files), strings.Join(d06Facts(db), "\n"))
				return
			}
		}
	}
	if diff := diffLists(append(d06Facts(db), extra...), append(d06Facts(got), types...)); diff != "" {
		t.Failf("wrong-schema", "the scripts do not rebuild the database:\n%s\nfiles:\n%s", diff, dumpFiles(files))
		return
	}
	t.Count("rebuilt", 1)
	t.Count("rebuilt_"+dialect, 1)
	for _, tb := range db.Tables {
		for _, c := range tb.Cons {
			if c.Type == "FOREIGN KEY" {
				t.Count("foreign_keys", 1)
				if c.RefSchema != tb.Schema {
					t.Count("cross_schema_keys", 1)
				}
			}
			t.Sig("con", dialect, c.Type)
		}
		for _, c := range tb.Cols {
			t.Sig("col", dialect, c.Type, c.Def != "", c.NotNull)
		}
		for _, x := range tb.Idxs {
			t.Sig("idx", dialect, x.Type, x.Unique, len(x.Incl) > 0, x.Pred != "")
		}
	}
}

// d06Types adds extensions, enums and domains, and says what they are.
func d06Types(t *T, db *vDB, cat *ddl.Catalog) (facts []string) {
	r := t.Rng
	g := &catGen{r: r, dialect: "postgres", cat: cat, used: map[string]bool{}}
	for _, e := range []string{"plpgsql", "uuid-ossp", "Pg Trgm"} {
		if r.Intn(2) == 0 {
			cat.Extensions = append(cat.Extensions, e)
			facts = append(facts, fmt.Sprintf("extension %q", e))
		}
	}
	sort.Strings(cat.Extensions)
	for i := range cat.Schemas {
		sc := &cat.Schemas[i]
		if sc.SchemaName == cat.CurrentSchema {
			sc.Enums = append(sc.Enums, ddl.Enum{EnumSchema: sc.SchemaName, EnumName: "Mood", EnumLabels: []string{"a", "B"}})
			facts = append(facts, fmt.Sprintf("enum %q.%q %q", sc.SchemaName, "Mood", []string{"a", "B"}))
		}
		for j := r.Intn(3); j > 0; j-- {
			e := ddl.Enum{EnumSchema: sc.SchemaName, EnumName: g.name("type")}
			for k := 0; k <= r.Intn(5); k++ {
				e.EnumLabels = append(e.EnumLabels, []string{"small", "it's", "Größe", "a,b", `d"q`, "x);"}[k])
			}
			sc.Enums = append(sc.Enums, e)
			t.Count("enums", 1)
			facts = append(facts, fmt.Sprintf("enum %q.%q %q", e.EnumSchema, e.EnumName, e.EnumLabels))
		}
		for j := r.Intn(3); j > 0; j-- {
			d := ddl.Domain{DomainSchema: sc.SchemaName, DomainName: g.name("type"), IsNotNull: r.Intn(2) == 0}
			d.UnderlyingType = pickStr(r, "integer", "text", "character varying(255)", "numeric(10,2)")
			if d.UnderlyingType == "text" && r.Intn(2) == 0 {
				d.CollationName = "C"
			}
			if r.Intn(2) == 0 {
				d.ColumnDefault = "1"
			}
			for k := r.Intn(3); k > 0; k-- {
				d.CheckNames = append(d.CheckNames, pickStr(r, "check", "is it", "Order")+fmt.Sprint(k))
				d.CheckExprs = append(d.CheckExprs, fmt.Sprintf("(VALUE <> '%d')", k))
			}
			sc.Domains = append(sc.Domains, d)
			t.Count("domains", 1)
			facts = append(facts, d06Domain(d))
		}
	}
	// Some columns have these types.
	for i := range cat.Schemas {
		for j := range cat.Schemas[i].Tables {
			tb := &cat.Schemas[i].Tables[j]
			for k := range tb.Columns {
				c := &tb.Columns[k]
				vt := db.table(tb.TableSchema, tb.TableName)
				vc := vt.col(c.ColumnName)
				if vc.Type == `"Mood"` {
					vc.Type = udtName(cat.CurrentSchema, "Mood")
					continue
				}
				sc := cat.Schemas[r.Intn(len(cat.Schemas))]
				if vc.Def != "" || vc.Ident != "" || vc.Gen != "" || vc.Coll != "" || db.inFK(vt, vc.Name) || r.Intn(4) > 0 {
					continue
				}
				qual := func(name string) string {
					vc.Type = udtName(sc.SchemaName, name)
					if sc.SchemaName == cat.CurrentSchema {
						return pgIdent(name)
					}
					return pgIdent(sc.SchemaName) + "." + pgIdent(name)
				}
				if len(sc.Enums) > 0 && r.Intn(2) == 0 {
					c.IsEnum, c.ColumnType = true, qual(sc.Enums[r.Intn(len(sc.Enums))].EnumName)
					t.Count("enum_columns", 1)
				} else if len(sc.Domains) > 0 {
					d := sc.Domains[r.Intn(len(sc.Domains))]
					c.DomainName, c.ColumnType = qual(d.DomainName), shortType(d.UnderlyingType)
					t.Count("domain_columns", 1)
				}
			}
		}
	}
	return facts
}

func d06Domain(d ddl.Domain) string {
	s := fmt.Sprintf("domain %q.%q %s not-null=%v collate=%q default=%q", d.DomainSchema, d.DomainName, strings.ReplaceAll(d.UnderlyingType, " ", ""), d.IsNotNull, d.CollationName, d.ColumnDefault)
	checks := []string{}
	for i, e := range d.CheckExprs {
		checks = append(checks, fmt.Sprintf("%q %s", d.CheckNames[i], bare(e)))
	}
	sort.Strings(checks)
	return s + fmt.Sprint(checks)
}

// d06TypeStatement reads the statements that create extensions and types.
func d06TypeStatement(db *vDB, stmt string) (fact string, ok bool) {
	toks, err := vLex("postgres", stmt)
	if err != nil {
		return "", false
	}
	p := &vParser{db: db, src: stmt, toks: toks}
	defer func() {
		if e := recover(); e != nil {
			if r, isReject := e.(vReject); isReject {
				fact, ok = "malformed: "+stmt+": "+r.msg, true
				return
			}
			panic(e)
		}
	}()
	switch {
	case p.try("CREATE EXTENSION IF NOT EXISTS"):
		n := p.name()
		p.done()
		return fmt.Sprintf("extension %q", n), true
	case p.try("CREATE TYPE"):
		schema, name := p.qname()
		p.need("AS ENUM (")
		var labels []string
		for {
			tok := p.peek()
			if tok.kind != 's' {
				reject("want a label, have %s", p.rest())
			}
			p.pos++
			labels = append(labels, tok.text)
			if !p.try(",") {
				break
			}
		}
		p.need(")")
		p.done()
		if !db.Schemas[schema] {
			reject("schema %s does not exist", schema)
		}
		db.UDT[udtName(schema, name)] = true
		return fmt.Sprintf("enum %q.%q %q", schema, name, labels), true
	case p.try("CREATE DOMAIN"):
		d := ddl.Domain{}
		d.DomainSchema, d.DomainName = p.qname()
		p.need("AS")
		for p.pos < len(p.toks) && !p.isWord(0, "NOT") && !p.isWord(0, "COLLATE") && !p.isWord(0, "DEFAULT") && !p.isWord(0, "CONSTRAINT") && !p.isWord(0, "CHECK") {
			d.UnderlyingType += p.peek().text
			p.pos++
		}
		for p.pos < len(p.toks) {
			switch {
			case p.try("NOT NULL"):
				d.IsNotNull = true
			case p.try("COLLATE"):
				d.CollationName = p.name()
			case p.try("DEFAULT"):
				d.ColumnDefault = p.peek().text
				p.pos++
			case p.try("CONSTRAINT"):
				d.CheckNames = append(d.CheckNames, p.name())
				p.need("CHECK")
				d.CheckExprs = append(d.CheckExprs, p.raw())
			default:
				reject("unexpected %s", p.rest())
			}
		}
		if !db.Schemas[d.DomainSchema] {
			reject("schema %s does not exist", d.DomainSchema)
		}
		db.UDT[udtName(d.DomainSchema, d.DomainName)] = true
		return d06Domain(d), true
	}
	return "", false
}

var reStored = regexp.MustCompile(`(?i)\s+(STORED|VIRTUAL|PERSISTED)$`)

// bare is an expression without the brackets around it.
func bare(s string) string {
	s = strings.TrimSpace(s)
	for strings.HasPrefix(s, "(") && closing(s) == len(s)-1 {
		s = strings.TrimSpace(s[1 : len(s)-1])
	}
	return s
}
