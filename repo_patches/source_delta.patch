From d69d930b7c0055ee939205ea5f515f181a92a0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 01/22] fix: page windows for zero, negative and overflowing
 page values

---
 api/proxy.go           | 22 ++++++++--------------
 page/page.go           | 24 ++++++++++++++++++++++++
 store/memory/memory.go | 22 ++++++----------------
 3 files changed, 38 insertions(+), 30 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 2c7ce8b..3781f8b 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -265,20 +265,14 @@ func Proxy(r *ReqContext) interface{} {
 
 		// manually slice items
 		var l = int64(len(items))
-		var start, end int64
-		if paginate.PageSize == 0 || paginate.Page == 0 {
-			// all resources
-			start = 0
-			end = l
-		} else {
-			start = (paginate.Page - 1) * paginate.PageSize
-			end = start + paginate.PageSize
-			if start >= l {
-				start = l
-			}
-			if end >= l {
-				end = l
-			}
+		start, end, err := paginate.Window(l)
+		if err != nil {
+			return errorProxy(r.Writer, v1.Status{
+				Status:  v1.StatusFailure,
+				Message: "query error",
+				Reason:  v1.StatusReason(err.Error()),
+				Code:    400,
+			})
 		}
 		items = items[start:end]
 		total = l
diff --git a/page/page.go b/page/page.go
index b1c7b5e..e2aa8ee 100644
--- a/page/page.go
+++ b/page/page.go
@@ -22,6 +22,30 @@ type Paginate struct {
 	Search   string `json:"search,omitempty" form:"search"`
 }
 
+// Window returns the half open range [start, end) of a result of total items
+// which the page selects. Page or PageSize 0 means no paging, negative values are invalid.
+func (p *Paginate) Window(total int64) (int64, int64, error) {
+	if p.Page < 0 || p.PageSize < 0 {
+		return 0, 0, fmt.Errorf("page and page size can not be negative: %d, %d", p.Page, p.PageSize)
+	}
+	if p.Page == 0 || p.PageSize == 0 {
+		return 0, total, nil
+	}
+	if p.Page-1 > total/p.PageSize {
+		// (Page-1)*PageSize is beyond the end and may overflow.
+		return total, total, nil
+	}
+	start := (p.Page - 1) * p.PageSize
+	if start > total {
+		start = total
+	}
+	end := total
+	if p.PageSize < total-start {
+		end = start + p.PageSize
+	}
+	return start, end, nil
+}
+
 func (p *Paginate) Match(m map[string]string) (bool, error) {
 	parts := p.SearchParts()
 	return Match(m, parts)
diff --git a/store/memory/memory.go b/store/memory/memory.go
index 84c3ab8..2a82981 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -306,30 +306,20 @@ func (m *memoryStore) Query(gvr store.GroupVersionResource, query store.Query) s
 		})
 	})
 	l := int64(len(resources))
+	start, end, err := query.Window(l)
+	if err != nil {
+		res.Error = err
+		return res
+	}
 	if l == 0 {
 		return res
 	}
-	resources, err := sortObjs(resources, query.Sort)
+	resources, err = sortObjs(resources, query.Sort)
 	if err != nil {
 		res.Error = err
 		return res
 	}
 	res.Total = l
-	var start, end int64
-	if query.PageSize == 0 {
-		// all resources
-		start = 0
-		end = l
-	} else {
-		start = (query.Page - 1) * query.PageSize
-		end = start + query.PageSize
-		if start >= l {
-			start = l
-		}
-		if end >= l {
-			end = l
-		}
-	}
 	for _, r := range resources[start:end] {
 		res.Items = append(res.Items, r.Obj)
 	}
-- 
2.43.0


From f7f11fb8e9042ac04144ff80b8da6721d899260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 02/22] fix: remaining item count and client side total with
 paging off

---
 api/proxy.go | 12 ++++++------
 page/page.go |  5 ++++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 3781f8b..3714c84 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -299,21 +299,21 @@ func Proxy(r *ReqContext) interface{} {
 		apiVersion = gvr.Group + "/" + gvr.Version
 	}
 	var remainCount int64
-	if paginate.Page == 0 && paginate.PageSize == 0 {
+	if paginate.Page == 0 || paginate.PageSize == 0 {
 		// all item returned
 		remainCount = 0
 	} else {
 		// page starts with 1,
-		remainCount = total - (paginate.PageSize * paginate.Page)
-		if remainCount < 0 && len(items) == 0 && paginate.Page != 1 {
+		if _, end, err := paginate.Window(total); err == nil {
+			remainCount = total - end
+		}
+		if len(items) == 0 && paginate.Page != 1 {
 			return errorProxy(r.Writer, v1.Status{
 				Status:  v1.StatusFailure,
 				Message: "out of page",
-				Reason:  v1.StatusReason(fmt.Sprintf("request resources out of page: %d", remainCount)),
+				Reason:  v1.StatusReason(fmt.Sprintf("request resources out of page: %d", paginate.Page)),
 				Code:    400,
 			})
-		} else if remainCount < 0 {
-			remainCount = 0
 		}
 	}
 	if strings.Contains(r.Request.Header.Get("accept"), "application/json;as=Table") {
diff --git a/page/page.go b/page/page.go
index e2aa8ee..fa77ae2 100644
--- a/page/page.go
+++ b/page/page.go
@@ -368,7 +368,10 @@ func MakeupResPaginate(l v1.ListInterface, page Paginate) Paginate {
 		var i int64 = 0
 		remain = &i
 	}
-	page.Total = *remain + (page.Page-1)*page.PageSize + int64(items)
+	page.Total = *remain + int64(items)
+	if page.Page > 0 && page.PageSize > 0 {
+		page.Total += (page.Page - 1) * page.PageSize
+	}
 	return page
 }
 
-- 
2.43.0


From 5b13bf0ee46b8a45b8c425f43d9e62f32fffc270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 03/22] fix: sort ties and malformed sort requests
 deterministically

---
 store/memory/memory.go | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 2a82981..2efe8d9 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -197,7 +198,7 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 		if strings.Contains(s, " ") {
 			parts := strings.Split(s, " ")
 			if len(parts) > 2 {
-				return objs, nil
+				return objs, fmt.Errorf("error sort format `%s`", s)
 			}
 			if len(parts) == 2 {
 				switch parts[1] {
@@ -233,7 +234,20 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 		}
 		sorts = append(sorts, st)
 	}
-	var sortErr error = nil
+	for _, st := range sorts {
+		if st.typ != constants.KeyTypeInt {
+			continue
+		}
+		for _, o := range objs {
+			if n, err := strconv.ParseFloat(o.Index[st.key], 64); err != nil || math.IsNaN(n) {
+				return objs, fmt.Errorf("value of `%s` can not convert to number", st.key)
+			}
+		}
+	}
+	// ties are broken by the identity of the object, so that the order is deterministic.
+	for _, key := range []string{"cluster", "namespace", "name"} {
+		sorts = append(sorts, innerSort{key: key, typ: constants.KeyTypeStr})
+	}
 	sort.Slice(objs, func(i, j int) bool {
 		for _, s := range sorts {
 			r := false
@@ -241,17 +255,9 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			vis := objs[i].Index[s.key]
 			vjs := objs[j].Index[s.key]
 			if s.typ == constants.KeyTypeInt {
-				keyErr := fmt.Errorf("value of `%s` can not convert to number", s.key)
-				vi, err := strconv.ParseFloat(vis, 64)
-				if err != nil {
-					sortErr = keyErr
-					break
-				}
-				vj, err := strconv.ParseFloat(vjs, 64)
-				if err != nil {
-					sortErr = keyErr
-					break
-				}
+				// checked above
+				vi, _ := strconv.ParseFloat(vis, 64)
+				vj, _ := strconv.ParseFloat(vjs, 64)
 				r = vi < vj
 				equals = vi == vj
 			} else {
@@ -266,9 +272,9 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			}
 			return r
 		}
-		return true
+		return false
 	})
-	return objs, sortErr
+	return objs, nil
 }
 
 func (m *memoryStore) Get(gvr store.GroupVersionResource, cluster string, namespace, name string) interface{} {
-- 
2.43.0


From c6cc4aecbe663794ba9b8c5c5689cf5418af9287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 04/22] fix: a trailing separator ends the last search part

---
 page/page.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/page/page.go b/page/page.go
index fa77ae2..4e71a32 100644
--- a/page/page.go
+++ b/page/page.go
@@ -59,9 +59,9 @@ func (p *Paginate) SearchParts() []string {
 	trimPart := func(origin string) string {
 		return strings.ReplaceAll(origin, ";;", ";")
 	}
-	for i := 0; i < l-1; i++ {
+	for i := 0; i < l; i++ {
 		if search[i] == constants.SearchPartsSep {
-			if search[i+1] == constants.SearchPartsSep {
+			if i+1 < l && search[i+1] == constants.SearchPartsSep {
 				// double ;, skip
 				i += 1
 				continue
-- 
2.43.0


From 0a6cc3f88b2bd61183900ce3ad2cebd973bbcec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 05/22] fix: keep every equality requirement of a label
 selector

---
 kube/label.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kube/label.go b/kube/label.go
index e3df13e..65679d8 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -65,6 +65,15 @@ func ParseToLabelSelector(selector string) (*v1.LabelSelector, error) {
 			if !ok {
 				return nil, fmt.Errorf("equals operator has exactly one value but it cannot be retrieved")
 			}
+			if exist, ok := labelSelector.MatchLabels[req.Key()]; ok && exist != val {
+				// MatchLabels can only hold one value of each key, keep the other requirements as expressions.
+				labelSelector.MatchExpressions = append(labelSelector.MatchExpressions, v1.LabelSelectorRequirement{
+					Key:      req.Key(),
+					Operator: v1.LabelSelectorOpIn,
+					Values:   []string{val},
+				})
+				continue
+			}
 			labelSelector.MatchLabels[req.Key()] = val
 			continue
 		case selection.In:
-- 
2.43.0


From 2ed311f0e126d0c72f22300478226ba5d32ec8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 06/22] fix: merge long queries in offset order and replace
 queries set by equality

---
 kube/label.go | 9 ++++++++-
 page/page.go  | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/kube/label.go b/kube/label.go
index 65679d8..d761118 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -31,7 +31,14 @@ func MergeValues(values []string) (string, error) {
 	if len(values) == 1 {
 		return values[0], nil
 	}
-	sort.Strings(values)
+	// the offset prefix has more digits for long values, a longer prefix is a bigger offset.
+	sort.Slice(values, func(i, j int) bool {
+		di, dj := strings.Index(values[i], "."), strings.Index(values[j], ".")
+		if di != dj {
+			return di < dj
+		}
+		return values[i] < values[j]
+	})
 	b := strings.Builder{}
 	for _, v := range values {
 		parts := strings.Split(v, ".")
diff --git a/page/page.go b/page/page.go
index 4e71a32..f35f7d1 100644
--- a/page/page.go
+++ b/page/page.go
@@ -342,6 +342,8 @@ func QueryListOptions(options v1.ListOptions, page Paginate) (v1.ListOptions, er
 		}
 	}
 	ls.MatchExpressions = mes
+	// an earlier query may also be set by equality, see the server side.
+	delete(ls.MatchLabels, constants.PaginateKey)
 	sstr := v1.FormatLabelSelector(ls)
 	if sstr == "<error>" {
 		return options, fmt.Errorf("parse selector %v error", ls)
-- 
2.43.0


From eb711d10da811ca128836ee43548eeee0c61d240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 07/22] fix: keep every condition when the search selector is
 replaced

---
 page/page.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/page/page.go b/page/page.go
index f35f7d1..40770eb 100644
--- a/page/page.go
+++ b/page/page.go
@@ -167,6 +167,7 @@ func (p *Paginate) SearchSelector() (*v1.LabelSelector, error) {
 	parts := p.SearchParts()
 	search := ""
 	for _, part := range parts {
+		part = strings.TrimSpace(part)
 		if strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
 			search = part
 			break
@@ -191,10 +192,14 @@ func (p *Paginate) SetSearchSelector(selector *v1.LabelSelector) error {
 		return fmt.Errorf("parse selector %v error", selector)
 	}
 	pps := []string{constants.AdvancedSearchPrefix + sstr}
+	replaced := false
 	for _, part := range parts {
-		if !strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
-			pps = append(pps, part)
+		// only replace the part returned by SearchSelector, others are still conditions of the search.
+		if !replaced && strings.HasPrefix(strings.TrimSpace(part), constants.AdvancedSearchPrefix) {
+			replaced = true
+			continue
 		}
+		pps = append(pps, part)
 	}
 	p.SetSearchWithParts(pps)
 	return nil
-- 
2.43.0


From 2029a732609c32fb88112e2cf49af2e641d9cf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 08/22] fix: never list other clusters when a cluster name is
 not a label value

---
 api/extend/deploy2service.go | 4 ++--
 api/proxy.go                 | 5 +----
 page/page.go                 | 8 ++++++++
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index 1dada9e..f10bb5c 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -35,7 +35,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		cluster = common.GetConfig().DefaultCluster
 	}
 	p := page.Paginate{Search: "name=" + dep}
-	_ = p.Clusters([]string{cluster})
+	p.InCluster(cluster)
 	res := r.Store.Query(podGvr, store.Query{
 		Namespace: ns,
 		Paginate:  p,
@@ -54,7 +54,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		}
 	}
 	p = page.Paginate{}
-	_ = p.Clusters([]string{cluster})
+	p.InCluster(cluster)
 	res = r.Store.Query(svcGvr, store.Query{
 		Namespace: ns,
 		Paginate:  p,
diff --git a/api/proxy.go b/api/proxy.go
index 3714c84..bacba9a 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -220,10 +220,7 @@ func Proxy(r *ReqContext) interface{} {
 	// If you want to get all clusters' resources,
 	// please call paginate.Clusters() before fetch resources
 	if cs := paginate.GetClusters(); len(cs) == 0 {
-		err = paginate.Clusters([]string{common.GetConfig().DefaultCluster})
-		if err != nil {
-			log.Errorf("set cluster error: %v", err)
-		}
+		paginate.InCluster(common.GetConfig().DefaultCluster)
 	}
 	log.Debugf("got paginate %v", paginate)
 
diff --git a/page/page.go b/page/page.go
index 40770eb..15855c8 100644
--- a/page/page.go
+++ b/page/page.go
@@ -265,6 +265,14 @@ func (p *Paginate) Clusters(css []string) error {
 	return p.SetSearchSelector(s)
 }
 
+// InCluster restricts the search to exactly one cluster, whatever it is called.
+func (p *Paginate) InCluster(cluster string) {
+	if p.Clusters([]string{cluster}) != nil {
+		// the cluster (or the search itself) can not be expressed as label selector.
+		p.SetSearchWithParts(append(p.SearchParts(), fmt.Sprintf("cluster=%q", cluster)))
+	}
+}
+
 func (p *Paginate) GetClusters() []string {
 	if p == nil {
 		return nil
-- 
2.43.0


From 6852bd6d92964bf33cd395d31238514d69704714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 09/22] fix: forward the body of delete requests without a
 cluster marker

---
 api/proxy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index bacba9a..1c6e4ec 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -119,6 +119,8 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 		body := r.Body
 		opts, err := io.ReadAll(body)
 		if err == nil {
+			// the body is drained, restore it for the api server.
+			r.Body = wrapReader(bytes.NewBuffer(opts))
 			options := v1.DeleteOptions{}
 			_ = json.Unmarshal(opts, &options)
 			if len(options.DryRun) > 0 && strings.HasPrefix(options.DryRun[0], clusterPrefix) {
-- 
2.43.0


From b22507d38101f07c94978fa89013ad8335d05022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 10/22] fix: forward HEAD and OPTIONS requests instead of
 crashing

---
 api/proxy.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 1c6e4ec..7eaa079 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -470,8 +470,7 @@ func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Requ
 	case http.MethodPatch:
 		req = c.Patch(types.PatchType(r.Request.Header.Get("Content-Type")))
 	default:
-		log.Errorf("unexpected method: %s", r.Request.Method)
-		return nil
+		req = c.Verb(r.Request.Method)
 	}
 	// for k, v := range r.Request.Header {
 	//	if len(v) > 0 {
-- 
2.43.0


From c0576e4c4bf715c96d6e19d6762c1edc674dda36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 11/22] fix: derive the watched kind by removing the List
 suffix only

---
 watcher/watcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 5a205ab..d4f820d 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -115,7 +115,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 	gvk := schema.GroupVersionKind{
 		Group:   r.Group,
 		Version: r.Version,
-		Kind:    strings.TrimRight(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
+		Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
 	}
 	gv := schema.GroupVersion{
 		Group:   r.Group,
-- 
2.43.0


From cfde70b8c39160679b278cdabea35d450674b49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 12/22] fix: keep large integers of custom resources

---
 watcher/watcher.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index d4f820d..a878565 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -1,6 +1,7 @@
 package watcher
 
 import (
+	"bytes"
 	"context"
 	"encoding/json"
 	"fmt"
@@ -49,9 +50,12 @@ type ObjType struct {
 	Data          map[string]interface{}
 }
 
-func (o *ObjType) UnmarshalJSON(bytes []byte) error {
+func (o *ObjType) UnmarshalJSON(bs []byte) error {
 	m := map[string]interface{}{}
-	_ = json.Unmarshal(bytes, &m)
+	// keep numbers as they are, float64 can not hold every integer.
+	decoder := json.NewDecoder(bytes.NewReader(bs))
+	decoder.UseNumber()
+	_ = decoder.Decode(&m)
 	if v, ok := m["apiVersion"]; ok {
 		o.APIVersion = v.(string)
 	}
-- 
2.43.0


From 0f974b89bc66fccceb701e5dbf481fa7bbc4f615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 13/22] fix: switch store and clients together and without
 races on reload

---
 server/server.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index 2f87510..487a1fe 100644
--- a/server/server.go
+++ b/server/server.go
@@ -7,6 +7,7 @@ import (
 	"net/http"
 	"runtime/debug"
 	"strings"
+	"sync"
 	"time"
 
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
@@ -35,6 +36,8 @@ type muxServer struct {
 	server         *http.Server
 	store          store.Store
 	clusterClients map[string]kubernetes.Interface
+	// lock protects store and clusterClients, which are replaced together by ResetStore
+	lock sync.RWMutex
 }
 
 type statusWriter struct {
@@ -117,6 +120,8 @@ func (m *muxServer) Stop() error {
 }
 
 func (m *muxServer) ResetStore(s store.Store, clis map[string]kubernetes.Interface) {
+	m.lock.Lock()
+	defer m.lock.Unlock()
 	m.store = s
 	m.clusterClients = clis
 }
@@ -162,9 +167,12 @@ func (m *muxServer) registerRoutes(router *mux.Router, handleRoutes []route) {
 						return
 					}
 				}
+				m.lock.RLock()
+				s, clis := m.store, m.clusterClients
+				m.lock.RUnlock()
 				var res = route.handler(&api.ReqContext{
-					ClusterClients: m.clusterClients,
-					Store:          m.store,
+					ClusterClients: clis,
+					Store:          s,
 					Request:        r,
 					Writer:         writer,
 				})
-- 
2.43.0


From 1c72cdbc2a0cbc137116ccac7fce7d93901a8c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 14/22] fix: only look at pods of the requested deployment

---
 api/extend/deploy2service.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index f10bb5c..ca5665c 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -43,13 +43,12 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 	if res.Error != nil {
 		return res.Error
 	}
-	var labels map[string]string
+	podLabels := []map[string]string{}
 	for _, podIf := range res.Items {
 		if pod, ok := podIf.(v12.Object); ok {
-			depName := getDeploymentName(pod)
-			if depName != "" {
-				labels = pod.GetLabels()
-				break
+			// the search is fuzzy, it also finds pods of deployments whose name contains dep.
+			if getDeploymentName(pod) == dep {
+				podLabels = append(podLabels, pod.GetLabels())
 			}
 		}
 	}
@@ -70,8 +69,14 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		} else {
 			svc = svcIf.(*v1.Service)
 		}
-		if svc.Spec.Selector != nil && utils.IsSubsetOf(svc.Spec.Selector, labels) {
-			services = append(services, svc)
+		if svc.Spec.Selector == nil {
+			continue
+		}
+		for _, labels := range podLabels {
+			if utils.IsSubsetOf(svc.Spec.Selector, labels) {
+				services = append(services, svc)
+				break
+			}
 		}
 	}
 	return services
-- 
2.43.0


From 64b6cb51f9c3927573c024521d563267bd61ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 15/22] fix: kubectl plugin replaces the selector at its
 position in the kubectl arguments

---
 cmd/ckube-plugin/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index afe35a8..cdcc958 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -44,7 +44,8 @@ func main() {
 		}
 		if a == "-l" || a == "--selector" {
 			if i+1 < len(os.Args) {
-				selectorPos = i + 1
+				// the value is the next one of args, which has no --clusters option.
+				selectorPos = len(args)
 			}
 		}
 	}
-- 
2.43.0


From 41a871205030b8d00fda845e6c73875ee1f16367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 16/22] fix: kubectl plugin never runs without the requested
 clusters

---
 cmd/ckube-plugin/main.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index cdcc958..e241ea5 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -60,14 +60,21 @@ func main() {
 		switch typ {
 		case get:
 			p := page.Paginate{}
-			_ = p.Clusters(cs)
+			if err := p.Clusters(cs); err != nil {
+				log.Errorf("can not select clusters %q: %v", clusters, err)
+				os.Exit(2)
+			}
 			selector := ""
 			if selectorPos != 0 {
 				selector = args[selectorPos]
 			}
-			o, _ := page.QueryListOptions(metav1.ListOptions{
+			o, err := page.QueryListOptions(metav1.ListOptions{
 				LabelSelector: selector,
 			}, p)
+			if err != nil {
+				log.Errorf("can not add clusters to selector %q: %v", selector, err)
+				os.Exit(2)
+			}
 			if selectorPos == 0 {
 				args = append(args, "-l", o.LabelSelector)
 			} else {
-- 
2.43.0


From 5356cb6216d4a57e69dd374f82a8753a20bd0b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 17/22] fix: fake server only touches the object the request
 addresses

---
 pkg/client/fake/fake_ckube.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 21daeb3..a08d476 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -409,6 +409,8 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 	if resourceName == "" {
 		resourceName = obj.Name
 	}
+	// the request addresses the object, like the namespace.
+	obj.Name = resourceName
 	action := EventActionError
 	switch r.Method {
 	case "POST":
-- 
2.43.0


From 66f1414f2d0f868c285ee9f2e4422e912709b7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 18/22] fix: the cluster marker is removed even if the label
 selector can not be parsed

---
 api/proxy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 7eaa079..e39b669 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -133,6 +133,8 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 			log.Warnf("read body error: %v", err)
 		}
 	}
+	// the cluster marker is not for the api server, whether the selector can be parsed or not.
+	r.URL.RawQuery = query.Encode()
 	if labelSelectorStr != "" {
 		var err error
 		labels, err = kube.ParseToLabelSelector(labelSelectorStr)
-- 
2.43.0


From 90054795230b41dfe487fdbb261c8345645921c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 19/22] fix: services of a deployment consider its pods
 whatever they are called

---
 api/extend/deploy2service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index ca5665c..279546a 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -34,7 +34,8 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 	if cluster == "" {
 		cluster = common.GetConfig().DefaultCluster
 	}
-	p := page.Paginate{Search: "name=" + dep}
+	// a pod of the deployment can have any name: long names are cut and adopted pods keep theirs.
+	p := page.Paginate{}
 	p.InCluster(cluster)
 	res := r.Store.Query(podGvr, store.Query{
 		Namespace: ns,
@@ -46,7 +47,6 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 	podLabels := []map[string]string{}
 	for _, podIf := range res.Items {
 		if pod, ok := podIf.(v12.Object); ok {
-			// the search is fuzzy, it also finds pods of deployments whose name contains dep.
 			if getDeploymentName(pod) == dep {
 				podLabels = append(podLabels, pod.GetLabels())
 			}
-- 
2.43.0


From eac1e1ea337b921dbce64e817fc7aa5467ebc3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 20/22] fix: search parts beginning with the separator stay
 apart from the part before

---
 page/page.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/page/page.go b/page/page.go
index 15855c8..f4a5e6e 100644
--- a/page/page.go
+++ b/page/page.go
@@ -210,7 +210,11 @@ func (p *Paginate) SetSearchWithParts(parts []string) {
 		return strings.ReplaceAll(s, ";", ";;")
 	}
 	pps := []string{}
-	for _, part := range parts {
+	for i, part := range parts {
+		if i > 0 && strings.HasPrefix(part, ";") {
+			// keep it apart from the separator, space around a part has no meaning.
+			part = " " + part
+		}
 		pps = append(pps, doubleSep(part))
 	}
 	p.Search = strings.Join(pps, ";")
-- 
2.43.0


From dbc4a0de71ede352bb31e9200c1987311db8cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 21/22] fix: a search restricted to one cluster never matches a
 cluster whose name ends with it

---
 page/page.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/page/page.go b/page/page.go
index f4a5e6e..5ecc413 100644
--- a/page/page.go
+++ b/page/page.go
@@ -273,7 +273,9 @@ func (p *Paginate) Clusters(css []string) error {
 func (p *Paginate) InCluster(cluster string) {
 	if p.Clusters([]string{cluster}) != nil {
 		// the cluster (or the search itself) can not be expressed as label selector.
-		p.SetSearchWithParts(append(p.SearchParts(), fmt.Sprintf("cluster=%q", cluster)))
+		// the second part rejects clusters whose name only ends with a quote and the cluster.
+		name := strconv.Quote(cluster)
+		p.SetSearchWithParts(append(p.SearchParts(), "cluster="+name, `cluster=!\`+name))
 	}
 }
 
-- 
2.43.0


From a88fadb91d7167fd2283a860731245b69f0e1fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:31 +0000
Subject: [PATCH 22/22] fix: the plugin took objects named get or create for
 the subcommand

---
 cmd/ckube-plugin/main.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index e241ea5..8554132 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -25,13 +25,16 @@ func main() {
 	selectorPos := 0
 	for i := 1; i < len(os.Args); i++ {
 		a := os.Args[i]
-		switch a {
-		case "get":
-			typ = get
-		case "create":
-			typ = create
-			// case "delete":
-			//	typ = del
+		if typ == notSupport {
+			// the first one is the subcommand, objects can have such names, too.
+			switch a {
+			case "get":
+				typ = get
+			case "create":
+				typ = create
+				// case "delete":
+				//	typ = del
+			}
 		}
 		if a == "--clusters" {
 			if i+1 < len(os.Args) {
-- 
2.43.0

