package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"compress/gzip"
	"database/sql"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

func init() {
	register(&Prop{
		ID:    "S04",
		Level: "runtime_monitoring",
		Rule:  "Fails when a lookup in a catalog disagrees with a linear search, an addition or update through the cache gives another catalog than the model, a copy or the JSON form loses, changes or shares something, or a list of sources is read as something other than their union.",
		Assumptions: []string{
			"All changes to the catalog are made through the cache or by setting Ignore, as its documentation demands; names are unique among objects that are not ignored.",
		},
		MinCounts: map[string]int64{"operations": 5000, "lookups": 10000, "nested": 200, "ignored": 100, "copies": 200, "merges": 200, "json": 200, "sources": 100},
		Cases:     s04Cases,
	})
}

func s04Cases(tier string, seed int64) []Case {
	var out []Case
	for i := 0; i < tierN(tier, 400, 8000); i++ {
		out = append(out, Case{ID: fmt.Sprintf("cache-%d", i), Run: s04Cache})
	}
	for i := 0; i < tierN(tier, 400, 8000); i++ {
		out = append(out, Case{ID: fmt.Sprintf("copy-%d", i), Run: s04Copy})
	}
	for i := 0; i < tierN(tier, 200, 3000); i++ {
		out = append(out, Case{ID: fmt.Sprintf("sources-%d", i), Run: s04Sources})
	}
	return out
}

// s04Kind is a kind of object in a catalog.
type s04Kind struct {
	kind   string // as in the names of the cache's methods
	list   string // field of the parent that holds the objects
	name   string // field that holds the name
	parent string // kind of the parent
	typ    reflect.Type
}

var s04Kinds = []s04Kind{
	{"Schema", "Schemas", "SchemaName", "", reflect.TypeOf(ddl.Schema{})},
	{"Enum", "Enums", "EnumName", "Schema", reflect.TypeOf(ddl.Enum{})},
	{"Domain", "Domains", "DomainName", "Schema", reflect.TypeOf(ddl.Domain{})},
	{"Routine", "Routines", "RoutineName", "Schema", reflect.TypeOf(ddl.Routine{})},
	{"View", "Views", "ViewName", "Schema", reflect.TypeOf(ddl.View{})},
	{"Table", "Tables", "TableName", "Schema", reflect.TypeOf(ddl.Table{})},
	{"Column", "Columns", "ColumnName", "Table", reflect.TypeOf(ddl.Column{})},
	{"Constraint", "Constraints", "ConstraintName", "Table", reflect.TypeOf(ddl.Constraint{})},
	{"Index", "Indexes", "IndexName", "Table", reflect.TypeOf(ddl.Index{})},
	{"Trigger", "Triggers", "TriggerName", "Table", reflect.TypeOf(ddl.Trigger{})},
	{"ViewIndex", "Indexes", "IndexName", "View", reflect.TypeOf(ddl.Index{})},
	{"ViewTrigger", "Triggers", "TriggerName", "View", reflect.TypeOf(ddl.Trigger{})},
}

func s04KindOf(kind string) s04Kind {
	for _, k := range s04Kinds {
		if k.kind == kind {
			return k
		}
	}
	panic(kind)
}

// s04Place sets the fields of obj that say where it belongs.
func s04Place(k s04Kind, obj, parent reflect.Value) {
	switch k.parent {
	case "Schema":
		obj.FieldByName(strings.TrimSuffix(k.name, "Name") + "Schema").SetString(parent.FieldByName("SchemaName").String())
	case "Table":
		obj.FieldByName("TableSchema").SetString(parent.FieldByName("TableSchema").String())
		obj.FieldByName("TableName").SetString(parent.FieldByName("TableName").String())
	case "View":
		obj.FieldByName("TableSchema").SetString(parent.FieldByName("ViewSchema").String())
		obj.FieldByName("TableName").SetString(parent.FieldByName("ViewName").String())
	}
}

// s04Called keeps views and tables apart, whose names are in one space.
func s04Called(k s04Kind, name string) string {
	if k.kind == "View" {
		return "v " + name
	}
	return name
}

type s04Gen struct {
	r       *rand.Rand
	dialect string
	names   []string
}

func (g *s04Gen) text() string {
	return []string{"", "x", "long text", "é \"q\" 'a'", "NULL", "<a&b>", "line\nbreak"}[g.r.Intn(7)]
}

// fill sets every field of v, at any depth, other than Ignore.
func (g *s04Gen) fill(v reflect.Value) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(g.text())
	case reflect.Bool:
		v.SetBool(g.r.Intn(2) == 0)
	case reflect.Int:
		v.SetInt(int64(g.r.Intn(20)))
	case reflect.Slice:
		if g.r.Intn(4) == 0 {
			return
		}
		n := 1 + g.r.Intn(3)
		s := reflect.MakeSlice(v.Type(), n, n+g.r.Intn(3))
		for i := 0; i < n; i++ {
			g.fill(s.Index(i))
		}
		v.Set(s)
	case reflect.Map:
		if g.r.Intn(4) > 0 {
			m := map[string]string{}
			for i := 0; i <= g.r.Intn(3); i++ {
				m[fmt.Sprint("k", i)] = g.text()
			}
			v.Set(reflect.ValueOf(m))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Name == "Ignore" || f.Type.Kind() == reflect.Slice && f.Type.Elem().Kind() == reflect.Struct {
				continue
			}
			g.fill(v.Field(i))
		}
	}
}

// object makes an object of kind k in the given parent, with nested objects
// down to the given depth.
func (g *s04Gen) object(k s04Kind, parent reflect.Value, name string, depth int) reflect.Value {
	obj := reflect.New(k.typ).Elem()
	g.fill(obj)
	obj.FieldByName(k.name).SetString(name)
	s04Place(k, obj, parent)
	switch k.kind {
	case "Constraint":
		obj.FieldByName("ConstraintType").SetString([]string{ddl.UNIQUE, ddl.CHECK, ddl.FOREIGN_KEY, ddl.EXCLUDE}[g.r.Intn(4)])
	case "Routine":
		obj.FieldByName("IdentityArguments").SetString("")
		if g.dialect == "postgres" {
			obj.FieldByName("IdentityArguments").SetString([]string{"", "integer", "text, text"}[g.r.Intn(3)])
		}
	}
	if depth > 0 {
		for _, c := range s04Kinds {
			if c.parent != k.kind {
				continue
			}
			list := obj.FieldByName(c.list)
			for _, i := range g.r.Perm(len(g.names))[:g.r.Intn(4)] {
				list.Set(reflect.Append(list, g.object(c, obj, s04Called(c, g.names[i]), depth-1)))
			}
			if c.kind == "Constraint" && list.Len() > 0 && g.r.Intn(2) == 0 {
				list.Index(g.r.Intn(list.Len())).FieldByName("ConstraintType").SetString(ddl.PRIMARY_KEY)
			}
		}
	}
	return obj
}

func (g *s04Gen) catalog() *ddl.Catalog {
	c := &ddl.Catalog{}
	v := reflect.ValueOf(c).Elem()
	g.fill(v)
	c.Dialect = g.dialect
	for _, i := range g.r.Perm(len(g.names))[:1+g.r.Intn(2)] {
		v.FieldByName("Schemas").Set(reflect.Append(v.FieldByName("Schemas"), g.object(s04Kinds[0], v, g.names[i], 2)))
	}
	return c
}

// s04Find is the linear search: the object of that name that is not ignored.
func s04Find(k s04Kind, dialect string, parent reflect.Value, name, args string) int {
	list := parent.FieldByName(k.list)
	for i := 0; i < list.Len(); i++ {
		o := list.Index(i)
		if o.FieldByName("Ignore").Bool() || o.FieldByName(k.name).String() != name {
			continue
		}
		if k.kind == "Routine" && dialect == "postgres" && o.FieldByName("IdentityArguments").String() != args {
			continue
		}
		return i
	}
	return -1
}

func s04Norm(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		if v.Len() == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		for i := 0; i < v.Len(); i++ {
			s04Norm(v.Index(i))
		}
	case reflect.Map:
		if v.Len() == 0 {
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			s04Norm(v.Field(i))
		}
	}
}

// s04Clone copies by reflection.
func s04Clone(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return n
		}
		n.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(s04Clone(v.Index(i)))
		}
	case reflect.Map:
		if v.IsNil() {
			return n
		}
		n.Set(reflect.MakeMap(v.Type()))
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, v.MapIndex(k))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n.Field(i).Set(s04Clone(v.Field(i)))
		}
	default:
		n.Set(v)
	}
	return n
}

func s04CloneCatalog(c *ddl.Catalog) *ddl.Catalog {
	n := &ddl.Catalog{}
	reflect.ValueOf(n).Elem().Set(s04Clone(reflect.ValueOf(c).Elem()))
	return n
}

// s04Diff says where two catalogs differ, empty lists counting as none.
func s04Diff(path string, a, b reflect.Value) string {
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s has %d elements, not %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := s04Diff(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := s04Diff(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() == 0 && b.Len() == 0 {
			return ""
		}
		fallthrough
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Sprintf("%s is %#v, not %#v", path, a.Interface(), b.Interface())
		}
	}
	return ""
}

func s04DiffCatalogs(a, b *ddl.Catalog) string {
	return s04Diff("catalog", reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem())
}

// s04Shared says what two values have in common in memory.
func s04Shared(path string, a, b reflect.Value) string {
	switch a.Kind() {
	case reflect.Slice:
		if a.Cap() > 0 && b.Cap() > 0 && a.Pointer() == b.Pointer() {
			return path
		}
		for i := 0; i < a.Len() && i < b.Len(); i++ {
			if d := s04Shared(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		if !a.IsNil() && a.Pointer() == b.Pointer() {
			return path
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := s04Shared(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i)); d != "" {
				return d
			}
		}
	}
	return ""
}

func s04NewGen(r *rand.Rand) *s04Gen {
	return &s04Gen{r: r, dialect: []string{"sqlite", "postgres", "mysql", "sqlserver"}[r.Intn(4)], names: []string{"a", "b", "A", "a b", "é", "x.y"}}
}

// s04Cache runs random operations on a catalog through its cache.
func s04Cache(t *T) {
	r := t.Rng
	g := s04NewGen(r)
	c := &ddl.Catalog{Dialect: g.dialect}
	if r.Intn(2) == 0 {
		c = g.catalog()
	}
	cache := ddl.NewCatalogCache(c)
	cv := reflect.ValueOf(cache)
	root := reflect.ValueOf(c).Elem()
	model := s04CloneCatalog(c)
	var trace []string
	fail := func(key, format string, args ...any) {
		t.Failf(key, "%s: %s\n%s", g.dialect, fmt.Sprintf(format, args...), strings.Join(trace, "\n"))
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(harnessError); ok {
				panic(e)
			}
			fail("panic", "panic: %v", e)
		}
	}()
	// parents lists the addresses of all objects of a kind that are in use,
	// in the catalog and in the model.
	parents := func(kind string) (real, mod []reflect.Value) {
		if kind == "" {
			return []reflect.Value{root}, []reflect.Value{reflect.ValueOf(model).Elem()}
		}
		var walk func(k s04Kind, a, b reflect.Value)
		walk = func(k s04Kind, a, b reflect.Value) {
			la, lb := a.FieldByName(k.list), b.FieldByName(k.list)
			for i := 0; i < la.Len(); i++ {
				if la.Index(i).FieldByName("Ignore").Bool() {
					continue
				}
				if k.kind == kind {
					real, mod = append(real, la.Index(i)), append(mod, lb.Index(i))
				} else if k.kind == "Schema" {
					walk(s04KindOf(kind), la.Index(i), lb.Index(i))
				}
			}
		}
		walk(s04Kinds[0], root, reflect.ValueOf(model).Elem())
		return real, mod
	}
	lookups := func() bool {
		for _, k := range s04Kinds {
			ps, _ := parents(k.parent)
			// Nothing is found in a parent that was not found.
			get := cv.MethodByName("Get" + k.kind)
			args := []reflect.Value{reflect.Zero(get.Type().In(0)), reflect.ValueOf(g.names[r.Intn(len(g.names))])}
			if k.kind == "Routine" {
				args = append(args, reflect.ValueOf(""))
			}
			if got := get.Call(args)[0]; !got.IsNil() || cache.GetPrimaryKey(nil) != nil || len(cache.GetForeignKeys(nil)) > 0 {
				fail("lookup-nil", "Get%s in nothing gives %v", k.kind, got)
				return false
			}
			for _, p := range ps {
				for _, name := range append([]string{""}, g.names...) {
					if name == "" && k.kind != "Constraint" {
						continue
					}
					if name != "" {
						name = s04Called(k, name)
					}
					args := []reflect.Value{p.Addr(), reflect.ValueOf(name)}
					ident := ""
					if k.kind == "Routine" {
						if g.dialect == "postgres" {
							ident = []string{"", "integer", "text, text"}[r.Intn(3)]
						}
						args = append(args, reflect.ValueOf(ident))
					}
					got := cv.MethodByName("Get" + k.kind).Call(args)[0]
					i := s04Find(k, g.dialect, p, name, ident)
					if name == "" {
						i = -1
					}
					t.Count("lookups", 1)
					if i < 0 && !got.IsNil() || i >= 0 && got.Pointer() != p.FieldByName(k.list).Index(i).Addr().Pointer() {
						fail("lookup", "Get%s(%q) in %q gives %v, position %d", k.kind, name, s04Name(p), got, i)
						return false
					}
				}
				if k.kind == "Constraint" {
					tbl := p.Addr().Interface().(*ddl.Table)
					var pk *ddl.Constraint
					fks := map[*ddl.Constraint]bool{}
					for i := range tbl.Constraints {
						if con := &tbl.Constraints[i]; !con.Ignore && con.ConstraintType == ddl.PRIMARY_KEY {
							pk = con
						} else if !con.Ignore && con.ConstraintType == ddl.FOREIGN_KEY {
							fks[con] = true
						}
					}
					if got := cache.GetPrimaryKey(tbl); got != pk {
						fail("primary-key", "GetPrimaryKey(%q) gives %v, not %v", tbl.TableName, got, pk)
						return false
					}
					got := cache.GetForeignKeys(tbl)
					seen := map[*ddl.Constraint]bool{}
					for _, fk := range got {
						seen[fk] = true
					}
					if len(got) != len(seen) || !reflect.DeepEqual(seen, fks) {
						fail("foreign-keys", "GetForeignKeys(%q) gives %d constraints (%d different), not %d", tbl.TableName, len(got), len(seen), len(fks))
						return false
					}
				}
			}
		}
		return true
	}
	if !lookups() {
		return
	}
	for n := 0; n < 25; n++ {
		k := s04Kinds[r.Intn(len(s04Kinds))]
		if n < 2 && len(c.Schemas) == 0 {
			k = s04Kinds[0]
		}
		real, mod := parents(k.parent)
		if len(real) == 0 {
			continue
		}
		w := r.Intn(len(real))
		p, m := real[w], mod[w]
		name := s04Called(k, g.names[r.Intn(len(g.names))])
		if k.kind == "Constraint" && r.Intn(6) == 0 {
			name = ""
		}
		obj := g.object(k, p, name, r.Intn(3))
		ident := ""
		if k.kind == "Routine" {
			ident = obj.FieldByName("IdentityArguments").String()
		}
		if k.kind == "Constraint" && r.Intn(4) == 0 {
			// The only primary key of the table.
			pk := cache.GetPrimaryKey(p.Addr().Interface().(*ddl.Table))
			if pk == nil || name != "" && pk.ConstraintName == name {
				obj.FieldByName("ConstraintType").SetString(ddl.PRIMARY_KEY)
			}
		}
		at := s04Find(k, g.dialect, m, name, ident)
		if name == "" {
			at = -1
		}
		list := m.FieldByName(k.list)
		op := r.Intn(5)
		t.Count("operations", 1)
		switch {
		case op <= 1: // add or update
			trace = append(trace, fmt.Sprintf("AddOrUpdate%s(%q, %q %v)", k.kind, s04Name(p), name, obj))
			switch k.kind {
			case "Schema", "Table", "View":
				t.Count("nested", 1)
			}
			given := s04Clone(obj)
			cv.MethodByName("AddOrUpdate" + k.kind).Call([]reflect.Value{p.Addr(), given})
			if at >= 0 {
				list.Index(at).Set(s04Clone(obj))
			} else {
				list.Set(reflect.Append(list, s04Clone(obj)))
			}
		case op <= 3: // get or create
			trace = append(trace, fmt.Sprintf("GetOrCreate%s(%q, %q %q)", k.kind, s04Name(p), name, ident))
			args := []reflect.Value{p.Addr(), reflect.ValueOf(name)}
			made := reflect.New(k.typ).Elem()
			made.FieldByName(k.name).SetString(name)
			s04Place(k, made, p)
			take := func(field string) {
				args = append(args, obj.FieldByName(field))
				made.FieldByName(field).Set(s04Clone(obj.FieldByName(field)))
			}
			switch k.kind {
			case "Routine":
				take("IdentityArguments")
			case "Column":
				take("ColumnType")
			case "Constraint":
				if name == "" {
					continue // what an unnamed constraint is got by is not documented
				}
				take("ConstraintType")
				take("Columns")
			case "Index", "ViewIndex":
				take("Columns")
			}
			got := cv.MethodByName("GetOrCreate" + k.kind).Call(args)[0]
			if at < 0 {
				list.Set(reflect.Append(list, made))
				at = list.Len() - 1
			}
			if real := p.FieldByName(k.list); at >= real.Len() || got.Pointer() != real.Index(at).Addr().Pointer() {
				fail("get-or-create", "GetOrCreate%s(%q) does not give the object at %d", k.kind, name, at)
				return
			}
		default: // ignore
			if at < 0 {
				continue
			}
			trace = append(trace, fmt.Sprintf("ignore %s %q of %q", k.kind, name, s04Name(p)))
			t.Count("ignored", 1)
			p.FieldByName(k.list).Index(at).FieldByName("Ignore").SetBool(true)
			list.Index(at).FieldByName("Ignore").SetBool(true)
		}
		t.Sig(fmt.Sprint(g.dialect, k.kind, op, at >= 0, c.Schemas == nil, n%5))
		if d := s04DiffCatalogs(c, model); d != "" {
			fail("state", "%s", d)
			return
		}
		if !lookups() {
			return
		}
	}
	t.Sample("%s", strings.Join(trace, "; "))
}

func s04Name(v reflect.Value) string {
	for _, k := range s04Kinds {
		if v.Type() == k.typ {
			return v.FieldByName(k.name).String()
		}
	}
	return ""
}

// s04Merge is the union of two catalogs of which the second counts.
func s04Merge(dialect, kind string, dest, src reflect.Value) {
	for _, k := range s04Kinds {
		if k.parent != kind {
			continue
		}
		dl, sl := dest.FieldByName(k.list), src.FieldByName(k.list)
		for i := 0; i < sl.Len(); i++ {
			o := sl.Index(i)
			ident := ""
			if k.kind == "Routine" {
				ident = o.FieldByName("IdentityArguments").String()
			}
			at := s04Find(k, dialect, dest, o.FieldByName(k.name).String(), ident)
			if at < 0 {
				dl.Set(reflect.Append(dl, s04Clone(o)))
				continue
			}
			old := s04Clone(dl.Index(at))
			dl.Index(at).Set(s04Clone(o))
			for _, c := range s04Kinds {
				if c.parent == k.kind {
					dl.Index(at).FieldByName(c.list).Set(old.FieldByName(c.list))
				}
			}
			s04Merge(dialect, k.kind, dl.Index(at), o)
		}
	}
}

// s04Copy copies catalogs and writes them as JSON.
func s04Copy(t *T) {
	r := t.Rng
	g := s04NewGen(r)
	src := g.catalog()
	// SQLite's constraints have no names.
	if g.dialect == "sqlite" {
		for i := range src.Schemas {
			for j := range src.Schemas[i].Tables {
				tbl := &src.Schemas[i].Tables[j]
				for k := range tbl.Constraints {
					if r.Intn(2) == 0 {
						tbl.Constraints[k].ConstraintName = ""
						tbl.Constraints[k].CheckExpr = fmt.Sprint("unique", i, j, k)
					}
				}
			}
		}
	}
	before := s04CloneCatalog(src)
	dest := &ddl.Catalog{}
	must(src.WriteCatalog(dest))
	t.Count("copies", 1)
	t.Sig(fmt.Sprint("copy", g.dialect, len(src.Schemas), len(src.Schemas[0].Tables), len(src.Schemas[0].Views), len(src.Schemas[0].Routines)))
	if d := s04DiffCatalogs(dest, src); d != "" {
		t.Failf("copy", "the copy differs: %s", d)
		return
	}
	if d := s04Shared("catalog", reflect.ValueOf(dest).Elem(), reflect.ValueOf(src).Elem()); d != "" {
		t.Failf("shared", "copy and original share %s", d)
		return
	}
	if d := s04DiffCatalogs(src, before); d != "" {
		t.Failf("source", "copying changes the original: %s", d)
		return
	}
	// Copying again changes nothing.
	must(src.WriteCatalog(dest))
	t.Count("merges", 1)
	if d := s04DiffCatalogs(dest, src); d != "" {
		t.Failf("again", "after copying twice: %s", d)
		return
	}
	// Merging into another catalog.
	other := g.catalog()
	want := s04CloneCatalog(other)
	wv, sv := reflect.ValueOf(want).Elem(), reflect.ValueOf(src).Elem()
	if g.dialect != "sqlite" {
		for i := 0; i < wv.NumField(); i++ {
			if wv.Type().Field(i).Name != "Schemas" {
				wv.Field(i).Set(s04Clone(sv.Field(i)))
			}
		}
		s04Merge(g.dialect, "", wv, sv)
		must(src.WriteCatalog(other))
		if d := s04DiffCatalogs(other, want); d != "" {
			t.Failf("merge", "copying into another catalog: %s", d)
			return
		}
	}
	data, err := json.Marshal(src)
	must(err)
	back := &ddl.Catalog{}
	must(json.Unmarshal(data, back))
	t.Count("json", 1)
	if d := s04DiffCatalogs(back, src); d != "" {
		t.Failf("json", "read back from JSON: %s\n%s", d, data)
		return
	}
	// The lookups of a copy are those of the original.
	c := ddl.NewCatalogCache(back)
	for i := range back.Schemas {
		s := c.GetSchema(back, back.Schemas[i].SchemaName)
		for j := range back.Schemas[i].Tables {
			if tbl := c.GetTable(s, back.Schemas[i].Tables[j].TableName); tbl != &back.Schemas[i].Tables[j] {
				t.Failf("lookup", "table %q of %q is not found", back.Schemas[i].Tables[j].TableName, back.Schemas[i].SchemaName)
				return
			}
		}
	}
}

// s04Sources reads a schema given as a list of sources of different kinds.
func s04Sources(t *T) {
	r := t.Rng
	dir := t.Dir()
	var all []string
	var args []string
	n := 1 + r.Intn(4)
	next := 0
	var kinds []string
	for i := 0; i < n; i++ {
		// The tables of this source.
		var mine []string
		for j := 0; j <= r.Intn(3); j++ {
			mine = append(mine, fmt.Sprintf("t%c%d", 'a'+rune(r.Intn(26)), next))
			next++
		}
		db := filepath.Join(dir, fmt.Sprintf("s%d.sqlite3", i))
		ddls := []string{}
		for k, name := range mine {
			cols := []string{"id INTEGER PRIMARY KEY"}
			for c := 0; c <= r.Intn(4); c++ {
				cols = append(cols, fmt.Sprintf("c%d %s%s", c, []string{"TEXT", "INT", "REAL"}[r.Intn(3)], []string{"", " NOT NULL", " DEFAULT 1"}[r.Intn(3)]))
			}
			if r.Intn(3) == 0 {
				cols = append(cols, "UNIQUE (c0)")
			}
			if k > 0 && r.Intn(2) == 0 {
				cols = append(cols, "p INT REFERENCES "+mine[k-1]+" (id)")
			}
			for x, c := range cols {
				if strings.HasPrefix(c, "UNIQUE") && x < len(cols)-1 {
					cols[x], cols[len(cols)-1] = cols[len(cols)-1], cols[x]
				}
			}
			ddls = append(ddls, "CREATE TABLE "+name+" ("+strings.Join(cols, ", ")+")")
			if r.Intn(3) == 0 {
				ddls = append(ddls, "CREATE INDEX "+name+"_x ON "+name+" (c0)")
			}
		}
		conn, err := sql.Open("sqlite3", db)
		must(err)
		for _, s := range ddls {
			_, err = conn.Exec(s)
			must(err)
		}
		sort.Strings(mine)
		all = append(all, mine...)
		kind := []string{"db", "json", "dir", "zip", "tgz", "go"}[r.Intn(6)]
		kinds = append(kinds, kind)
		if kind == "db" {
			args = append(args, db)
			conn.Close()
			if r.Intn(4) == 0 {
				args = append(args, db)
			}
			continue
		}
		// A schema.json as dump writes it.
		out := filepath.Join(dir, fmt.Sprintf("dump%d", i))
		must((&ddl.DumpCmd{DB: conn, Dialect: "sqlite", OutputDir: out, SchemaOnly: true, Stderr: &bytes.Buffer{}}).Run())
		data, err := os.ReadFile(filepath.Join(out, "schema.json"))
		must(err)
		var src string
		switch kind {
		case "json":
			src = filepath.Join(dir, fmt.Sprintf("x%d.json", i))
			must(os.WriteFile(src, data, 0o644))
		case "dir":
			src = out
		case "zip":
			src = filepath.Join(dir, fmt.Sprintf("x%d.zip", i))
			f, err := os.Create(src)
			must(err)
			z := zip.NewWriter(f)
			if r.Intn(3) == 0 {
				w, err := z.Create("__MACOSX/" + []string{"schema.json", "._schema.json"}[r.Intn(2)])
				must(err)
				w.Write([]byte("\x00\x05\x16\x07"))
			}
			if r.Intn(3) == 0 {
				w, err := z.Create("a.csv")
				must(err)
				w.Write([]byte("id\n1\n"))
			}
			w, err := z.Create([]string{"", fmt.Sprintf("x%d/", i)}[r.Intn(2)] + "schema.json")
			must(err)
			w.Write(data)
			must(z.Close())
			must(f.Close())
		case "tgz":
			src = filepath.Join(dir, fmt.Sprintf("x%d%s", i, []string{".tgz", ".tar.gz", ".tar.gzip"}[r.Intn(3)]))
			f, err := os.Create(src)
			must(err)
			z := gzip.NewWriter(f)
			w := tar.NewWriter(z)
			if r.Intn(3) == 0 {
				must(w.WriteHeader(&tar.Header{Name: "a.csv", Mode: 0o644, Size: 5}))
				w.Write([]byte("id\n1\n"))
			}
			must(w.WriteHeader(&tar.Header{Name: []string{"", fmt.Sprintf("x%d/", i), "./"}[r.Intn(3)] + "schema.json", Mode: 0o644, Size: int64(len(data))}))
			w.Write(data)
			must(w.Close())
			must(z.Close())
			must(f.Close())
		case "go":
			src = filepath.Join(dir, fmt.Sprintf("x%d.go", i))
			must((&ddl.TablesCmd{DB: conn, Dialect: "sqlite", Filename: src, PackageName: "x"}).Run())
		}
		conn.Close()
		args = append(args, src)
		if r.Intn(4) == 0 {
			args = append(args, src) // giving a source twice means the same
		}
	}
	t.Count("sources", 1)
	t.Sig(strings.Join(kinds, ","))
	read := func(src string) *ddl.Catalog {
		cmd, err := ddl.GenerateCommand("-dialect", "sqlite", "-src", src, "-dest", filepath.Join(dir, "s0.sqlite3"))
		if err != nil {
			t.Failf("sources", "-src %s: %v", src, err)
			return nil
		}
		return cmd.SrcCatalog
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(harnessError); ok {
				panic(e)
			}
			t.Failf("panic", "-src %s: panic: %v", strings.Join(args, ","), e)
		}
	}()
	// tables gives each table of a catalog in a comparable form.
	tables := func(c *ddl.Catalog) map[string]string {
		out := map[string]string{}
		for _, s := range c.Schemas {
			for _, tbl := range s.Tables {
				v := s04Clone(reflect.ValueOf(tbl))
				s04Norm(v)
				data, err := json.Marshal(v.Interface())
				must(err)
				key := s.SchemaName + "." + tbl.TableName
				out[key] += string(data)
			}
		}
		return out
	}
	want := map[string]string{}
	for _, a := range args {
		c := read(a)
		if c == nil {
			return
		}
		for k, v := range tables(c) {
			want[k] = v
		}
	}
	if len(want) != len(all) {
		t.Failf("sources", "%d tables are read from the sources one by one, not %d", len(want), len(all))
		return
	}
	c := read(strings.Join(args, ","))
	if c == nil {
		return
	}
	got := tables(c)
	for k, v := range want {
		if got[k] != v {
			t.Failf("union", "-src %s (%v): table %s is\n%s\nnot\n%s", strings.Join(args, ","), kinds, k, got[k], v)
			return
		}
	}
	if len(got) != len(want) {
		t.Failf("union", "-src %s (%v): %d tables, not %d", strings.Join(args, ","), kinds, len(got), len(want))
		return
	}
	t.Sample("%v: %d tables", kinds, len(got))
}
