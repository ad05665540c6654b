package memory

import (
	"math"
	"strconv"
	"strings"

	"github.com/DaoCloud/ckube/common/constants"
	"github.com/DaoCloud/ckube/store"
)

// ---- C05 sorting. The text of a sort request:
// item, item, …  with  item = key[!type][ direction].

//@ pure strconv.ParseFloat math.IsNaN

var _ = strconv.ParseFloat
var _ = math.IsNaN

// specTyped: the item without its direction.
func specTyped(t string) string {
	return vIte(strings.Contains(t, " "), strings.Split(t, " ")[0], t)
}
func specDirOk(t string) bool {
	return !strings.Contains(t, " ") ||
		len(strings.Split(t, " ")) == 2 && (strings.Split(t, " ")[1] == constants.SortDesc || strings.Split(t, " ")[1] == constants.SortASC)
}
func specTypeOk(t string) bool {
	return !strings.Contains(t, constants.KeyTypeSep) ||
		len(strings.Split(t, constants.KeyTypeSep)) == 2 && (strings.Split(t, constants.KeyTypeSep)[1] == constants.KeyTypeInt || strings.Split(t, constants.KeyTypeSep)[1] == constants.KeyTypeStr)
}
func specSortKey(t string) string {
	return vIte(strings.Contains(t, constants.KeyTypeSep), strings.Split(t, constants.KeyTypeSep)[0], t)
}
func specSortType(t string) string {
	return vIte(strings.Contains(t, constants.KeyTypeSep), strings.Split(t, constants.KeyTypeSep)[1], constants.KeyTypeStr)
}
func specItem(t string) innerSort {
	return innerSort{
		key:     specSortKey(specTyped(t)),
		typ:     specSortType(specTyped(t)),
		reverse: strings.Contains(t, " ") && strings.Split(t, " ")[1] == constants.SortDesc,
	}
}
func specItemOk(t string) bool { return specDirOk(t) && specTypeOk(specTyped(t)) }

// specKeysOf: the sort keys the items ask for; blank items ask for nothing.
func specKeysOf(items []string) []innerSort {
	if len(items) == 0 {
		return nil
	}
	if strings.TrimSpace(items[len(items)-1]) == "" {
		return specKeysOf(items[:len(items)-1])
	}
	return append(specKeysOf(items[:len(items)-1]), specItem(strings.TrimSpace(items[len(items)-1])))
}

// specAsked: the sort keys request s asks for.
func specAsked(s string) []innerSort {
	return vIte(s == "", []innerSort{specTie("cluster"), specTie("namespace"), specTie("name")}, specKeysOf(strings.Split(s, ",")))
}

// specKeys: … followed by what breaks ties.
func specKeys(s string) []innerSort {
	return append(append(append(specAsked(s), specTie("cluster")), specTie("namespace")), specTie("name"))
}
func specTie(key string) innerSort { return innerSort{key: key, typ: constants.KeyTypeStr} }

func specNum(v string) float64 {
	n, _ := strconv.ParseFloat(v, 64)
	return n
}
func specIsNum(v string) bool {
	n, err := strconv.ParseFloat(v, 64)
	return err == nil && !math.IsNaN(n)
}

// specCmp compares under one key: <0, 0 or >0.
func specCmp1(k innerSort, a, b string) int {
	return vIte(k.reverse, -1, 1) * vIte(k.typ == constants.KeyTypeInt,
		vIte(specNum(a) == specNum(b), 0, vIte(specNum(a) < specNum(b), -1, 1)),
		vIte(a == b, 0, vIte(a < b, -1, 1)))
}

// specCmp: the first key that tells the two apart decides.
func specCmp(ks []innerSort, a, b map[string]string) int {
	if len(ks) == 0 {
		return 0
	}
	if specCmp(ks[:len(ks)-1], a, b) != 0 {
		return specCmp(ks[:len(ks)-1], a, b)
	}
	return specCmp1(ks[len(ks)-1], a[ks[len(ks)-1].key], b[ks[len(ks)-1].key])
}

//@ func lemmaOrder(ks []innerSort, a, b, c map[string]string) (ok bool)
//@ loop(k int) specCmp(ks[:k], a, b) == -specCmp(ks[:k], b, a)
//@ loop(k int) vImp(specCmp(ks[:k], a, b) >= 0 && specCmp(ks[:k], b, c) >= 0, specCmp(ks[:k], a, c) >= 0 && vIff(specCmp(ks[:k], a, c) == 0, specCmp(ks[:k], a, b) == 0 && specCmp(ks[:k], b, c) == 0))
//@ ensures[C05] specCmp(ks, a, b) == -specCmp(ks, b, a)
//@ ensures[C05] vImp(specCmp(ks, a, b) >= 0 && specCmp(ks, b, c) >= 0, specCmp(ks, a, c) >= 0)
func lemmaOrder(ks []innerSort, a, b, c map[string]string) (ok bool) {
	for range ks {
	}
	return true
}

// lemmaFirst: the first key that tells a and b apart decides.
//@ func lemmaFirst(ks []innerSort, a, b map[string]string) (ok bool)
//@ loop(n int) vAll(func(k int) bool { return vImp(0 <= k && k < n && specCmp(ks[:k], a, b) == 0 && specCmp1(ks[k], a[ks[k].key], b[ks[k].key]) != 0, specCmp(ks[:n], a, b) == specCmp1(ks[k], a[ks[k].key], b[ks[k].key])) })
//@ ensures[C05] vAll(func(k int) bool { return vImp(0 <= k && k < len(ks) && specCmp(ks[:k], a, b) == 0 && specCmp1(ks[k], a[ks[k].key], b[ks[k].key]) != 0, specCmp(ks, a, b) == specCmp1(ks[k], a[ks[k].key], b[ks[k].key])) })
func lemmaFirst(ks []innerSort, a, b map[string]string) (ok bool) {
	for range ks {
	}
	return true
}

// specGood: item t can be sorted by, as far as the keys of the first object tell.
func specGood(t string, index map[string]string) bool {
	return vImp(strings.TrimSpace(t) != "", specItemOk(strings.TrimSpace(t)) && vHas(index, specItem(strings.TrimSpace(t)).key))
}
func specAllGood(s string, index map[string]string) bool {
	return vIte(s == "", vHas(index, "cluster") && vHas(index, "namespace") && vHas(index, "name"),
		vAll(func(k int) bool { return vImp(0 <= k && k < len(strings.Split(s, ",")), specGood(strings.Split(s, ",")[k], index)) }))
}
func specNumeric(k innerSort, objs []store.Object) bool {
	return vImp(k.typ == constants.KeyTypeInt, vAll(func(j int) bool { return vImp(0 <= j && j < len(objs), specIsNum(objs[j].Index[k.key])) }))
}
func specAllNumeric(s string, objs []store.Object) bool {
	return vAll(func(k int) bool { return vImp(0 <= k && k < len(specAsked(s)), specNumeric(specAsked(s)[k], objs)) })
}

//@ func sortObjs(objs []store.Object, s string) (r []store.Object, err error)
//@ optional
//@ modifies objs
//@ loop[C05](k int, sorts []innerSort, ss []string) vEq(sorts, specKeysOf(ss[:k]))
//@ loop[C05](k int, ss []string) vAll(func(j int) bool { return vImp(0 <= j && j < k, specGood(ss[j], objs[0].Index)) })
//@ loop[C05](k int, sorts []innerSort) vAll(func(j int) bool { return vImp(0 <= j && j < k, specNumeric(sorts[j], objs)) })
//@ loop[C05](k int, st innerSort) vAll(func(j int) bool { return vImp(0 <= j && j < k, specIsNum(objs[j].Index[st.key])) })
//@ loop[C05](k int, os []store.Object, i, j int) specCmp(specKeys(s)[:k], os[i].Index, os[j].Index) == 0
//@ order[C05](a, b, c store.Object) specCmp(specKeys(s), a.Index, b.Index) < 0 by lemmaOrder(specKeys(s), a.Index, b.Index, c.Index), lemmaFirst(specKeys(s), a.Index, b.Index)
//@ ensures[C05] malformed items and unknown keys are errors: vImp(err == nil && len(objs) > 0, vOld(specAllGood(s, objs[0].Index)))
//@ ensures[C05] values that are no numbers are errors: vImp(err == nil && len(objs) > 0, vOld(specAllNumeric(s, objs)))
//@ ensures[C05] nothing else is an error: vImp(vOld(len(objs) == 0 || specAllGood(s, objs[0].Index) && specAllNumeric(s, objs)), err == nil)
//@ ensures[C05] in the order asked for: vImp(err == nil, vAll(func(i, j int) bool { return vImp(0 <= i && i < j && j < len(r), specCmp(specKeys(s), r[j].Index, r[i].Index) >= 0) }))

//@ func (m *memoryStore) Query(gvr store.GroupVersionResource, query store.Query) (r store.QueryResult)
//@ requires[C05] specKeyed(m, gvr)
//@ loop[C05](res []store.Object) vAll(func(o store.Object) bool { return vImp(vMem(res, o), specEntry(m, gvr, o)) })
//@ loop[C05](i int, r store.QueryResult, xs []store.Object) len(r.Items) == i && vAll(func(j int) bool { return vImp(0 <= j && j < i, vEq(r.Items[j], xs[j].Obj)) })
//@ ensures[C05] in the order asked for: vImp(r.Error == nil, vAll(func(i, j int) bool { return vImp(0 <= i && i < j && j < len(r.Items),
//@ | specCmp(specKeys(query.Sort), specIndex(m, gvr, r.Items[j]), specIndex(m, gvr, r.Items[i])) >= 0) }))
