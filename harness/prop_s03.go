package main

// S03: introspection reports what is in the database.

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

// objSet maps the name of every object to its definition.
type objSet map[string]string

func (o objSet) add(kind string, v any, parts ...string) bool {
	b, err := json.Marshal(v)
	must(err)
	key := kind + " " + strings.Join(parts, " / ")
	if _, ok := o[key]; ok {
		return false
	}
	o[key] = string(b)
	return true
}

func normList(s *[]string) {
	if len(*s) == 0 {
		*s = nil
	}
}

// flattenCatalog lists the objects of a catalog. Derived fields are worked out
// for the model and left as they are for what introspection reports.
func flattenCatalog(cat *ddl.Catalog, f *ddl.Filter, dialect string) (objSet, []string) {
	out := objSet{}
	var dups []string
	put := func(kind string, v any, parts ...string) {
		if !out.add(kind, v, parts...) {
			dups = append(dups, kind+" "+strings.Join(parts, " / "))
		}
	}
	types := map[string]bool{}
	if f != nil {
		for _, t := range f.ObjectTypes {
			types[t] = true
		}
	}
	wants := func(typ string) bool { return len(types) == 0 || types[typ] }
	in := func(name string, include, exclude []string) bool {
		if f == nil {
			return true
		}
		if len(include) > 0 {
			return contains(include, name)
		}
		return !contains(exclude, name)
	}
	var ff ddl.Filter
	if f != nil {
		ff = *f
	}
	viewParts := len(ff.Tables)+len(ff.ExcludeTables)+len(ff.Views)+len(ff.ExcludeViews) == 0
	put("catalog", []any{cat.Dialect, cat.CatalogName, cat.CurrentSchema, cat.DefaultCollation, cat.VersionNums})
	if wants("EXTENSIONS") {
		for _, e := range cat.Extensions {
			if f != nil {
				if !in(e, ff.Extensions, ff.ExcludeExtensions) {
					continue
				}
			} else if i := strings.Index(e, "@"); i > 0 {
				e = e[:i]
			}
			put("extension", e, e)
		}
	}
	for _, sc := range cat.Schemas {
		if f != nil && (!in(sc.SchemaName, ff.Schemas, ff.ExcludeSchemas) || isSystem(dialect, sc.SchemaName) && !ff.IncludeSystemCatalogs) {
			continue
		}
		sys := func(kind, name string) bool {
			return f != nil && !ff.IncludeSystemCatalogs && isSystemName(dialect, kind, name)
		}
		if wants("ENUMS") {
			for _, e := range sc.Enums {
				if in(e.EnumName, ff.Enums, ff.ExcludeEnums) {
					put("enum", e, sc.SchemaName, e.EnumName)
				}
			}
		}
		if wants("DOMAINS") {
			for _, d := range sc.Domains {
				if in(d.DomainName, ff.Domains, ff.ExcludeDomains) {
					normList(&d.CheckNames)
					normList(&d.CheckExprs)
					put("domain", d, sc.SchemaName, d.DomainName)
				}
			}
		}
		if wants("ROUTINES") {
			for _, x := range sc.Routines {
				if in(x.RoutineName, ff.Routines, ff.ExcludeRoutines) && !sys("routine", x.RoutineName) {
					put("routine", x, sc.SchemaName, x.RoutineName, x.IdentityArguments, x.RoutineType)
				}
			}
		}
		if wants("VIEWS") {
			for _, v := range sc.Views {
				if !in(v.ViewName, ff.Views, ff.ExcludeViews) || sys("view", v.ViewName) {
					continue
				}
				ix, tr := v.Indexes, v.Triggers
				v.Indexes, v.Triggers = nil, nil
				normList(&v.EnumColumns)
				put("view", v, sc.SchemaName, v.ViewName)
				if viewParts {
					flattenParts(put, sc.SchemaName, v.ViewName, ix, tr)
				}
			}
		}
		if !wants("TABLES") {
			continue
		}
		for _, t := range sc.Tables {
			if !in(t.TableName, ff.Tables, ff.ExcludeTables) || sys("table", t.TableName) {
				continue
			}
			cols, cons, ix, tr := append([]ddl.Column(nil), t.Columns...), t.Constraints, t.Indexes, t.Triggers
			t.Columns, t.Constraints, t.Indexes, t.Triggers = nil, nil, nil, nil
			put("table", t, sc.SchemaName, t.TableName)
			if len(ff.Views)+len(ff.ExcludeViews) > 0 {
				tr = nil
			}
			flattenParts(put, sc.SchemaName, t.TableName, ix, tr)
			for _, c := range cons {
				if f != nil && !ff.IncludeConstraintType(c.ConstraintType) {
					continue
				}
				if f != nil && len(c.Columns) == 1 {
					for i := range cols {
						col := &cols[i]
						if col.ColumnName != c.Columns[0] {
							continue
						}
						switch c.ConstraintType {
						case "PRIMARY KEY":
							col.IsPrimaryKey = true
						case "UNIQUE":
							col.IsUnique = true
						case "FOREIGN KEY":
							col.ReferencesSchema, col.ReferencesTable, col.ReferencesColumn = c.ReferencesSchema, c.ReferencesTable, c.ReferencesColumns[0]
							col.UpdateRule, col.DeleteRule, col.IsDeferrable, col.IsInitiallyDeferred = c.UpdateRule, c.DeleteRule, c.IsDeferrable, c.IsInitiallyDeferred
						}
					}
				}
				normList(&c.Columns)
				normList(&c.ReferencesColumns)
				normList(&c.ExclusionOperators)
				put("constraint", c, sc.SchemaName, t.TableName, c.ConstraintName, c.ConstraintType)
			}
			var order []string
			for i, c := range cols {
				order = append(order, c.ColumnName)
				c.CharacterLength, c.NumericPrecision, c.NumericScale = "", "", ""
				put("column", c, sc.SchemaName, t.TableName, c.ColumnName)
				_ = i
			}
			put("columns of", order, sc.SchemaName, t.TableName)
		}
	}
	return out, dups
}

func flattenParts(put func(string, any, ...string), schema, table string, ix []ddl.Index, tr []ddl.Trigger) {
	for _, x := range ix {
		normList(&x.IncludeColumns)
		normList(&x.Opclasses)
		if len(x.Descending) == 0 {
			x.Descending = nil
		}
		put("index", x, schema, table, x.IndexName)
	}
	for _, x := range tr {
		if len(x.Attrs) == 0 {
			x.Attrs = nil
		}
		put("trigger", x, schema, table, x.TriggerName)
	}
}

func diffObjs(want, got objSet) []string {
	var out []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			out = append(out, "missing: "+k)
		} else if g != v {
			out = append(out, fmt.Sprintf("differs: %s\nwant %s\n got %s", k, v, g))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			out = append(out, "not in the database: "+k)
		}
	}
	sort.Strings(out)
	return out
}

// diffKind gives differences a stable name.
func diffKind(d string) string {
	head, rest, _ := strings.Cut(d, ": ")
	kind, _, _ := strings.Cut(rest, " ")
	return head + " " + kind
}

// genFilter returns a filter naming some of the objects.
func genFilter(r *rand.Rand, cat *ddl.Catalog) *ddl.Filter {
	f := &ddl.Filter{}
	names := map[string][]string{}
	for _, sc := range cat.Schemas {
		names["schema"] = append(names["schema"], sc.SchemaName)
		for _, x := range sc.Tables {
			names["table"] = append(names["table"], x.TableName)
		}
		for _, x := range sc.Views {
			names["view"] = append(names["view"], x.ViewName)
		}
		for _, x := range sc.Routines {
			names["routine"] = append(names["routine"], x.RoutineName)
		}
		for _, x := range sc.Enums {
			names["enum"] = append(names["enum"], x.EnumName)
		}
		for _, x := range sc.Domains {
			names["domain"] = append(names["domain"], x.DomainName)
		}
	}
	names["extension"] = cat.Extensions
	list := func(kind string) (out []string) {
		for _, n := range names[kind] {
			if r.Intn(2) == 0 {
				out = append(out, n)
			}
		}
		if r.Intn(3) == 0 {
			out = append(out, "no such "+kind, "it's")
		}
		return out
	}
	pairs := []struct {
		kind    string
		in, out *[]string
	}{
		{"schema", &f.Schemas, &f.ExcludeSchemas}, {"table", &f.Tables, &f.ExcludeTables}, {"view", &f.Views, &f.ExcludeViews},
		{"routine", &f.Routines, &f.ExcludeRoutines}, {"enum", &f.Enums, &f.ExcludeEnums}, {"domain", &f.Domains, &f.ExcludeDomains},
		{"extension", &f.Extensions, &f.ExcludeExtensions},
	}
	for _, p := range pairs {
		switch r.Intn(5) {
		case 0:
			*p.in = list(p.kind)
		case 1:
			*p.out = list(p.kind)
		}
	}
	if r.Intn(3) == 0 {
		for _, typ := range []string{"PRIMARY KEY", "UNIQUE", "FOREIGN KEY", "CHECK", "EXCLUDE"} {
			if r.Intn(2) == 0 {
				f.ConstraintTypes = append(f.ConstraintTypes, typ)
			}
		}
	}
	if r.Intn(3) == 0 {
		for _, typ := range []string{"EXTENSIONS", "ENUMS", "DOMAINS", "ROUTINES", "VIEWS", "TABLES"} {
			if r.Intn(2) == 0 {
				f.ObjectTypes = append(f.ObjectTypes, typ)
			}
		}
	}
	return f
}

// notEmulated tells errors that say that a query uses something the emulated
// system catalogs lack: nothing can be said about it.
func notEmulated(err error) bool {
	if err == nil {
		return false
	}
	s := err.Error()
	if !strings.Contains(s, "emulated ") {
		return false
	}
	if _, col, ok := strings.Cut(s, "no such column: "); ok {
		table, _, qualified := strings.Cut(col, ".")
		if qualified {
			// Not even the table is part of the query: no server takes it.
			known := false
			for _, loc := range regexp.MustCompile(`\b`+regexp.QuoteMeta(table)+`\b`).FindAllStringIndex(s, -1) {
				known = known || !strings.HasPrefix(s[loc[1]:], ".")
			}
			return known
		}
		return true
	}
	return strings.Contains(s, "no such function") || strings.Contains(s, "no such table") || strings.Contains(s, "wrong number of arguments")
}

var errNoAnswer = errors.New("not emulated")

func s03Server(dialect string) func(t *T) {
	return func(t *T) {
		r := t.Rng
		cat, version := genCatalog(r, dialect)
		orig := copyCatalog(cat)
		db, _, m := newServerDB(t, dialect, version, cat)
		for k := 0; k < 4; k++ {
			f := &ddl.Filter{}
			if k > 0 {
				f = genFilter(r, orig)
			}
			want, _ := flattenCatalog(copyCatalog(orig), f, dialect)
			dbi := ddl.NewDatabaseIntrospector(dialect, db)
			dbi.Filter = *f
			got := &ddl.Catalog{}
			var err error
			if p := recovered(func() { err = dbi.WriteCatalog(got) }); p != nil {
				t.Failf("panic", "introspecting panicked: %v", p)
				return
			}
			if notEmulated(err) {
				t.Count("not_emulated", 1)
				t.Note("not emulated: %v", err)
				return
			}
			if err != nil {
				t.Failf("error", "filter %s: %v", filterStr(f), err)
				return
			}
			have, dups := flattenCatalog(got, nil, dialect)
			for _, d := range dups {
				t.Failf("twice "+strings.Fields(d)[0], "filter %s: reported twice: %s", filterStr(f), d)
			}
			if len(f.Views)+len(f.ExcludeViews) > 0 {
				// Which triggers such a filter covers is not said.
				for k := range have {
					if strings.HasPrefix(k, "trigger ") {
						delete(have, k)
					}
				}
			}
			for k, v := range have {
				if _, ok := want[k]; !ok && len(f.Tables)+len(f.ExcludeTables)+len(f.Views)+len(f.ExcludeViews) > 0 && (strings.Contains(v, `"IsViewIndex":true`) || strings.Contains(v, `"IsViewTrigger":true`)) {
					delete(have, k)
				}
			}
			for _, d := range diffObjs(want, have) {
				t.Failf(diffKind(d), "%s\nfilter %s", d, filterStr(f))
			}
			t.Count("objects_compared", len(want))
			t.Count("introspections", 1)
			if k > 0 {
				t.Count("filtered_introspections", 1)
			}
			for k := range want {
				t.Sig(dialect + " " + strings.Fields(k)[0])
			}
		}
		m.Take()
		// System objects are added when asked for.
		dbi := ddl.NewDatabaseIntrospector(dialect, db)
		dbi.IncludeSystemCatalogs = true
		got := &ddl.Catalog{}
		var err error
		if p := recovered(func() { err = dbi.WriteCatalog(got) }); p != nil {
			t.Failf("panic", "introspecting panicked: %v", p)
			return
		}
		if notEmulated(err) {
			t.Count("not_emulated", 1)
			return
		}
		if err != nil {
			t.Failf("error", "with system catalogs: %v", err)
			return
		}
		want, _ := flattenCatalog(copyCatalog(orig), &ddl.Filter{}, dialect)
		have, _ := flattenCatalog(got, nil, dialect)
		for k, v := range want {
			if have[k] != v {
				t.Failf("system "+strings.Fields(k)[0], "with system catalogs: %s is reported as %q instead of %q", k, have[k], v)
			}
		}
		tables := map[string]bool{}
		for _, sc := range got.Schemas {
			for _, tab := range sc.Tables {
				tables[sc.SchemaName+"."+tab.TableName] = true
			}
		}
		for _, sc := range orig.Schemas {
			for _, tab := range sc.Tables {
				if !tables[sc.SchemaName+"."+tab.TableName] {
					t.Failf("system table", "table %s.%s is not reported with system catalogs", sc.SchemaName, tab.TableName)
				}
			}
		}
		t.Count("introspections_with_system_catalogs", 1)
	}
}

func filterStr(f *ddl.Filter) string {
	b, _ := json.Marshal(f)
	m := map[string]any{}
	json.Unmarshal(b, &m)
	for k, v := range m {
		if v == nil || v == "" || v == false {
			delete(m, k)
		}
	}
	b, _ = json.Marshal(m)
	return string(b)
}

func recovered(f func()) (p any) {
	defer func() {
		p = recover()
		if h, ok := p.(harnessError); ok {
			panic(h)
		}
	}()
	f()
	return nil
}

func init() {
	register(&Prop{
		ID:    "S03",
		Level: "exploration",
		Rule:  "case list fixed by seed: random databases per dialect, one introspection of everything and three with random filters each",
		Assumptions: []string{
			"Postgres, MySQL and SQL Server are emulated: the introspection queries really run, on system catalogs filled from a model database",
			"names hold no comma or quote in MySQL and SQL Server index columns and no | in view columns, which the queries join with these",
			"partitioned tables, sequences and views on missing tables are not generated",
			"which indexes and triggers of views a filter on tables or views selects is left open",
		},
		MinCounts: map[string]int64{"objects_compared": 10000, "introspections": 1000, "filtered_introspections": 700},
		Cases: func(tier string, seed int64) (cases []Case) {
			n := tierN(tier, 200, 4000)
			for i := 0; i < n; i++ {
				cases = append(cases, Case{ID: fmt.Sprintf("sqlite/%d", i), Run: s03SQLite})
			}
			for _, d := range []string{"postgres", "mysql", "sqlserver"} {
				d := d
				for i := 0; i < n; i++ {
					cases = append(cases, Case{ID: fmt.Sprintf("%s/%d", d, i), Run: s03Server(d)})
				}
			}
			return cases
		},
	})
}
