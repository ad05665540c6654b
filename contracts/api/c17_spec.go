package api

import (
	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/common/constants"
	"github.com/DaoCloud/ckube/kube"
	"github.com/DaoCloud/ckube/store"
)

// ---- C17

// specIdxText, specIdx: the index values of an object, as the store annotates them.
func specIdxText(o interface{}) string        { return store.GAnno[o.(v1.Object)][constants.IndexAnno] }
func specIdx(o interface{}) map[string]string { return kube.SpecJSONMap(specIdxText(o)) }

// specIndexed: a cached object.
func specIndexed(o interface{}) bool {
	return vDyn[v1.Object](o) && specIdxText(o) != "" && kube.SpecIsJSONMap(specIdxText(o)) && vHas(specIdx(o), "cluster") && vHas(specIdx(o), "name")
}

func specListed(items []interface{}) bool {
	return vAll(func(i int) bool {
		return vImp(0 <= i && i < len(items), specIndexed(items[i]) && vAll(func(k string) bool { return vIff(vHas(specIdx(items[i]), k), vHas(specIdx(items[0]), k)) }))
	})
}

// specLead: the number of columns that come first.
func specLead(o interface{}) int { return vIte(vHas(specIdx(o), "namespace"), 3, 2) }

func specCols(t v1.Table, o interface{}) bool {
	return len(t.ColumnDefinitions) >= specLead(o) && t.ColumnDefinitions[0].Name == "cluster" && t.ColumnDefinitions[specLead(o)-1].Name == "name" &&
		vImp(specLead(o) == 3, t.ColumnDefinitions[1].Name == "namespace")
}

func specAlphabetical(t v1.Table, o interface{}) bool {
	return vAll(func(i, j int) bool {
		return vImp(specLead(o) <= i && i < j && j < len(t.ColumnDefinitions), !(t.ColumnDefinitions[j].Name < t.ColumnDefinitions[i].Name))
	})
}

func specEveryCol(t v1.Table, o interface{}) bool {
	return vAll(func(k string) bool {
		return vImp(vHas(specIdx(o), k), vEx(func(j int) bool { return 0 <= j && j < len(t.ColumnDefinitions) && t.ColumnDefinitions[j].Name == k }))
	})
}

func specOnlyCols(t v1.Table, o interface{}) bool {
	return vAll(func(j int) bool {
		return vImp(0 <= j && j < len(t.ColumnDefinitions), vHas(specIdx(o), t.ColumnDefinitions[j].Name))
	})
}

func specRow(t v1.Table, r v1.TableRow, o interface{}) bool {
	return len(r.Cells) == len(t.ColumnDefinitions) && vAll(func(j int) bool {
		return vImp(0 <= j && j < len(t.ColumnDefinitions), vEq(r.Cells[j], interface{}(specIdx(o)[t.ColumnDefinitions[j].Name])))
	})
}

// specPlaces: im holds the positions of the columns.
func specPlaces(t v1.Table, im map[string]int) bool {
	return len(im) == len(t.ColumnDefinitions) && vAll(func(k string) bool {
		return vImp(vHas(im, k), 0 <= im[k] && im[k] < len(t.ColumnDefinitions) && t.ColumnDefinitions[im[k]].Name == k)
	}) && vAll(func(j int) bool {
		return vImp(0 <= j && j < len(t.ColumnDefinitions), vHas(im, t.ColumnDefinitions[j].Name) && im[t.ColumnDefinitions[j].Name] == j)
	})
}

func specLeads(k string) bool { return k == "cluster" || k == "namespace" || k == "name" }

//@ func serverPrint(items []interface{}) (res interface{})
//@ optional
//@ requires store.GAnno != nil && vAll(func(o v1.Object) bool { return vAllocated(store.GAnno[o]) }) && specListed(items)
//@ loop[C17](i int, t v1.Table) len(t.Rows) == i
//@ loop[C17](i int, t v1.Table, im map[string]int) vImp(i == 0, len(t.ColumnDefinitions) == 0 && len(im) == 0 && vAll(func(k string) bool { return !vHas(im, k) }))
//@ loop[C17](i int, t v1.Table) vImp(i > 0, specCols(t, items[0]))
//@ loop[C17](i int, t v1.Table) vImp(i > 0, specAlphabetical(t, items[0]))
//@ loop[C17](i int, t v1.Table) vImp(i > 0, specOnlyCols(t, items[0]))
//@ loop[C17](i int, t v1.Table, im map[string]int) specPlaces(t, im)
//@ loop[C17](i int, im map[string]int) vImp(i > 0, vAll(func(k string) bool { return vImp(vHas(specIdx(items[0]), k), vHas(im, k)) }))
//@ loop[C17](i int, t v1.Table) vAll(func(r int) bool { return vImp(0 <= r && r < i, specRow(t, t.Rows[r], items[r])) })
//@ loop[C17](cols []string, seen vSet[string]) vAll(func(k string) bool { return vImp(seen[k] && !specLeads(k), vMem(cols, k)) })
//@ loop[C17](cols []string, seen vSet[string]) vAll(func(j int) bool { return vImp(0 <= j && j < len(cols), seen[cols[j]] && !specLeads(cols[j])) })
//@ loop[C17](cols []string) vAll(func(p, q int) bool { return vImp(0 <= p && p < q && q < len(cols), cols[p] != cols[q]) })
//@ loop[C17](j int, cs []string, t v1.Table) len(t.ColumnDefinitions) == j && vAll(func(p int) bool { return vImp(0 <= p && p < j, t.ColumnDefinitions[p].Name == cs[p]) })
//@ loop[C17](t v1.Table, im map[string]int) specPlaces(t, im)
//@ loop[C17](j int, cs []string, im map[string]int) vAll(func(k string) bool { return vImp(vMem(cs[:j], k), vHas(im, k)) })
//@ loop[C17](i int, cells []interface{}, im map[string]int, seen vSet[string]) len(cells) == len(im) && vAll(func(k string) bool { return vImp(seen[k], vEq(cells[im[k]], interface{}(specIdx(items[i])[k]))) })
//@ order[C17](a, b, c string) a < b
//@ ensures[C17] a table: vDyn[v1.Table](res)
//@ ensures[C17] one row per object: len(res.(v1.Table).Rows) == len(items)
//@ ensures[C17] cluster, namespace and name first: vImp(len(items) > 0, specCols(res.(v1.Table), items[0]))
//@ ensures[C17] other columns in alphabetical order: vImp(len(items) > 0, specAlphabetical(res.(v1.Table), items[0]))
//@ ensures[C17] only indexes: vImp(len(items) > 0, specOnlyCols(res.(v1.Table), items[0]))
//@ ensures[C17] every index: vImp(len(items) > 0, specEveryCol(res.(v1.Table), items[0]))
//@ ensures[C17] own values under the columns: vAll(func(i int) bool { return vImp(0 <= i && i < len(items), specRow(res.(v1.Table), res.(v1.Table).Rows[i], items[i])) })
