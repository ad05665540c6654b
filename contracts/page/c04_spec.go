package page

import (
	"reflect"

	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
)

// ---- C04: the client helper

//@ pure reflect.ValueOf (reflect.Value).Elem (reflect.Value).NumField (reflect.Value).Field (reflect.Value).Type (reflect.Type).Field (reflect.Value).Interface (reflect.Value).Len (reflect.Value).FieldByName
//@ pure (k8s.io/apimachinery/pkg/apis/meta/v1.ListInterface).GetRemainingItemCount

// specItems: the number of items of a list, a struct with one field named Items.
//
//@ uninterpreted specItems specItemsField
func specItems(l v1.ListInterface) int      { panic(0) }
func specItemsField(l v1.ListInterface) int { panic(0) }

func specVal(l v1.ListInterface) reflect.Value { return reflect.ValueOf(l).Elem() }

// specIsList: field number specItemsField, and no other, is named Items and it has specItems elements.
func specIsList(l v1.ListInterface) bool {
	return l != nil && specVal(l).Type() != nil && 0 <= specItems(l) && 0 <= specItemsField(l) && specItemsField(l) < specVal(l).NumField() &&
		vAll(func(i int) bool {
			return vIff(specVal(l).Type().Field(i).Name == "Items", i == specItemsField(l))
		}) && reflect.ValueOf(specVal(l).Field(specItemsField(l)).Interface()).Len() == specItems(l) &&
		specVal(l).Field(specItemsField(l)).Len() == specItems(l) &&
		specVal(l).FieldByName("Items").Len() == specItems(l)
}

func specRemain(l v1.ListInterface) int64 {
	if l.GetRemainingItemCount() == nil {
		return 0
	}
	return *l.GetRemainingItemCount()
}

//@ func MakeupResPaginate(l v1.ListInterface, page Paginate) (r Paginate)
//@ requires specIsList(l) && 0 <= specRemain(l)
//@ requires the page lies within a result that can be counted: vImp(page.Page > 0 && page.PageSize > 0, specMul(page.Page-1, page.PageSize)+specRemain(l)+int64(specItems(l)) <= 1<<62) && specRemain(l)+int64(specItems(l)) <= 1<<62
//@ loop[C04](i int, items int) items == vIte(specItemsField(l) < i, specItems(l), 0)
//@ ensures[C04] the total is what lies before, on and after the page: r.Total == specRemain(l) + int64(specItems(l)) + vIte(page.Page > 0 && page.PageSize > 0, specMul(page.Page-1, page.PageSize), 0)
//@ ensures[C04] the query is kept: r.Page == page.Page && r.PageSize == page.PageSize && r.Sort == page.Sort && r.Search == page.Search
//@ nopanic[C04]

func specMul(a, b int64) int64 { return a * b }
