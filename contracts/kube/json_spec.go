package kube

import "encoding/json"

var _ = json.Marshal

//@ uninterpreted SpecJSON SpecMarshals SpecJSONMap SpecIsJSONMap

// SpecJSON: the JSON text of a value; SpecMarshals: whether it has one.
func SpecJSON(v interface{}) string   { panic(0) }
func SpecMarshals(v interface{}) bool { panic(0) }

//@ func json.Marshal(v interface{}) (b []byte, err error)
//@ trusted
//@ ensures (err == nil) == SpecMarshals(v) && vImp(err == nil, string(b) == SpecJSON(v))

// SpecIsJSONMap: the text is a JSON object of strings; SpecJSONMap: its members.
func SpecIsJSONMap(s string) bool            { panic(0) }
func SpecJSONMap(s string) map[string]string { panic(0) }

//@ func json.Unmarshal(data []byte, v interface{}) (err error)
//@ trusted
//@ modifies vPointee(v)
//@ requires[C17] vImp(vDyn[*map[string]string](v), len(*(v.(*map[string]string))) == 0)
//@ ensures[C17] vImp(vDyn[*map[string]string](v) && SpecIsJSONMap(string(data)), err == nil && *(v.(*map[string]string)) != nil && vFresh(*(v.(*map[string]string))) && vEq(vContents(*(v.(*map[string]string))), vContents(SpecJSONMap(string(data)))))
