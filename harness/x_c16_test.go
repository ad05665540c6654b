package zzverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"testing"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/watcher"
)

// c16norm: the JSON value with numbers kept as written and metadata as Kubernetes reads it.
func c16norm(bs []byte) (string, error) {
	d := json.NewDecoder(bytes.NewReader(bs))
	d.UseNumber()
	m := map[string]interface{}{}
	if err := d.Decode(&m); err != nil {
		return "", err
	}
	if d.More() {
		return "", fmt.Errorf("trailing data")
	}
	if md, ok := m["metadata"]; ok {
		var om metav1.ObjectMeta
		b, _ := json.Marshal(md)
		if err := json.Unmarshal(b, &om); err != nil {
			return "", err
		}
		m["metadata"] = om
	}
	return js(m), nil
}

func TestVerifC16(t *testing.T) {
	h := vStart(t, "C16")
	var val func(d int) interface{}
	val = func(d int) interface{} {
		switch h.rng.Intn(9) {
		case 0:
			return json.Number(h.pick("0", "-1", "9007199254740993", "18446744073709551615", "1.5", "0.1", "1e3", "123456789012345678901234567890", "-0.000001", "1.0"))
		case 1:
			return h.pick("", "s", "<a&b>", "é日", "\u2028", `q"\`, "line\nfeed", "null", "{}")
		case 2:
			return h.rng.Intn(2) == 0
		case 3:
			return nil
		case 4, 5:
			if d == 0 {
				return []interface{}{}
			}
			l := []interface{}{}
			for i := h.rng.Intn(3); i > 0; i-- {
				l = append(l, val(d-1))
			}
			return l
		default:
			m := map[string]interface{}{}
			if d > 0 {
				for i := h.rng.Intn(4); i > 0; i-- {
					m[h.pick("a", "b", "metadata", "kind", "apiVersion", "k e y", "")] = val(d - 1)
				}
			}
			return m
		}
	}
	fields := []string{"spec", "status", "data", "Data", "type", "rules", "a", "webhooks", "metadataX", "Kind", "APIVersion", "Metadata", "", "é"}
	for run := 0; run < h.n(4000, 60000); run++ {
		m := map[string]interface{}{}
		for i := h.rng.Intn(5); i > 0; i-- {
			m[fields[h.rng.Intn(len(fields))]] = val(3)
		}
		if h.rng.Intn(10) > 0 {
			m["apiVersion"] = h.pick("x.io/v1", "v1", "a.b.c/v1beta1", "/", "X/V1", "x.io/v1/y", " v1 ", "é/v1")
		}
		if h.rng.Intn(10) > 0 {
			m["kind"] = h.pick("Widget", "W", "WidgetList", "List", "Status", "widget", "WatchEvent", "é K", "ListList")
		}
		md := map[string]interface{}{"name": h.pick("n", "", "é<>"), "creationTimestamp": "2021-01-02T03:04:05Z"}
		for k, v := range map[string]interface{}{"namespace": "ns", "labels": map[string]string{"a": "b", "c": ""}, "annotations": map[string]string{"x": `{"y":1}`}, "uid": "u", "resourceVersion": "77", "generation": json.Number("9007199254740993"), "finalizers": []string{"f"}, "deletionTimestamp": "2022-01-02T03:04:05Z", "deletionGracePeriodSeconds": 30, "generateName": "g-", "selfLink": "/x",
			"ownerReferences": []map[string]interface{}{{"apiVersion": "v1", "kind": "K", "name": "o", "uid": "1", "controller": true}}, "managedFields": []map[string]interface{}{{"manager": "m", "operation": "Update", "apiVersion": "v1", "fieldsType": "FieldsV1", "fieldsV1": map[string]interface{}{"f:a": map[string]interface{}{}}}}} {
			if h.rng.Intn(3) == 0 {
				md[k] = v
			}
		}
		m["metadata"] = md
		src := []byte(js(m))
		if h.rng.Intn(4) == 0 {
			src, _ = json.MarshalIndent(m, " ", "  ")
		}
		in := string(src)
		h.one(in)
		want, err := c16norm(src)
		if err != nil {
			t.Fatal(err, in)
		}
		o := &watcher.ObjType{}
		if h.rng.Intn(3) == 0 { // decoding overwrites nothing it should not, and forgets nothing it should
			_ = json.Unmarshal([]byte(`{"apiVersion":"x.io/v1","kind":"Widget","metadata":{"name":"old"},"old":1}`), o)
			if _, ok := m["apiVersion"]; !ok {
				o = &watcher.ObjType{}
			}
			if _, ok := m["kind"]; !ok {
				o = &watcher.ObjType{}
			}
			o.ObjectMeta = metav1.ObjectMeta{}
		}
		if err := json.Unmarshal(src, o); err != nil {
			h.bad("decode fails", in, err, "decoded")
			continue
		}
		enc := func(x interface{}) string {
			bs, err := json.Marshal(x)
			if err != nil {
				return err.Error()
			}
			s, err := c16norm(bs)
			if err != nil {
				return err.Error() + ": " + string(bs)
			}
			return s
		}
		if got := enc(o); got != want {
			h.bad("decode and encode", in, got, want)
			continue
		}
		// twice
		o2 := &watcher.ObjType{}
		bs, _ := json.Marshal(o)
		_ = json.Unmarshal(bs, o2)
		if got := enc(o2); got != want {
			h.bad("decode and encode twice", in, got, want)
		}
		cp := o.DeepCopyObject().(*watcher.ObjType)
		if got := enc(cp); got != want {
			h.bad("copy", in, got, want)
		}
		cp.Data["added"] = 1
		for k := range cp.Data {
			if k != "added" {
				cp.Data[k] = "changed"
				delete(cp.Data, k)
			}
		}
		if got := enc(o); got != want {
			h.bad("the copy shares its field table", in, got, want)
		}
		o.Data["late"] = 1
		if _, ok := cp.Data["late"]; ok {
			h.bad("the copy shares its field table", in, "late", "own table")
		}
	}
}
