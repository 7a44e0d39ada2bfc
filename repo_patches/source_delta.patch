From 66d69ab0d8d6c597fe0861ea80de6ee64c7b049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 01/70] fix: only resolve from an authentic, currently valid
 entity configuration

The starting entity's configuration was not checked for its issuer, subject
and validity period, and one without metadata made the resolver panic.
---
 trustresolver.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 5523cde..f60589d 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -212,12 +212,19 @@ func (r *TrustResolver) Resolve() {
 	if err != nil {
 		return
 	}
-	if len(r.Types) > 0 {
-		utils.NilAllExceptByTag(starting.Metadata, r.Types)
+	if !utils.Equal(starting.Issuer, starting.Subject, r.StartingEntity) || !starting.TimeValid() {
+		return
+	}
+	var entityTypes []string
+	if starting.Metadata != nil {
+		if len(r.Types) > 0 {
+			utils.NilAllExceptByTag(starting.Metadata, r.Types)
+		}
+		entityTypes = starting.Metadata.GuessEntityTypes()
 	}
 	r.trustTree = trustTree{
 		Entity:              starting,
-		includedEntityTypes: strset.New(starting.Metadata.GuessEntityTypes()...),
+		includedEntityTypes: strset.New(entityTypes...),
 		subordinateIDs:      strset.New(starting.Subject),
 	}
 	r.trustTree.resolve(r.TrustAnchors)
-- 
2.43.0


From 30e1878aa46f66409e362bf5f2b8713c4b517f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 02/70] fix: never return an unverified single-statement chain

A starting entity without usable authority hints, or one that is itself a
trust anchor, yielded a chain of its entity configuration without any
signature check, even when the trust anchor's keys were pinned.
---
 trustresolver.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index f60589d..8331bc9 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -235,7 +235,10 @@ func (r *TrustResolver) Resolve() {
 
 // VerifySignatures verifies the signatures of the internal trust tree
 func (r *TrustResolver) VerifySignatures() {
-	r.trustTree.verifySignatures(r.TrustAnchors)
+	if !r.trustTree.verifySignatures(r.TrustAnchors) {
+		// nothing in the tree is trusted
+		r.trustTree = trustTree{}
+	}
 	if err := r.cacheSetTrustTree(); err != nil {
 		internal.Log(err.Error())
 	}
@@ -443,15 +446,16 @@ func (t *trustTree) verifySignatures(anchors TrustAnchors) bool {
 	if t.signaturesVerified {
 		return true
 	}
-	if t.Subordinate != nil {
+	if t.Entity != nil {
 		for _, ta := range anchors {
-			if utils.Equal(ta.EntityID, t.Entity.Issuer, t.Entity.Subject, t.Subordinate.Issuer) {
+			if utils.Equal(ta.EntityID, t.Entity.Issuer, t.Entity.Subject) &&
+				(t.Subordinate == nil || t.Subordinate.Issuer == ta.EntityID) {
 				// t is about a TA
 				jwks := ta.JWKS
 				if jwks.Set == nil {
 					jwks = t.Entity.JWKS
 				}
-				t.signaturesVerified = t.Entity.Verify(jwks) && t.Subordinate.Verify(jwks)
+				t.signaturesVerified = t.Entity.Verify(jwks) && (t.Subordinate == nil || t.Subordinate.Verify(jwks))
 				return t.signaturesVerified
 			}
 		}
-- 
2.43.0


From ba0ccfa929c7bc0b54e53f2d84d6629545ff50e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 03/70] fix: let cached trust trees and chains expire with
 their statements

The expiration of a trust tree was never set, so the cache got a lifetime of
minus centuries: the default cache dropped the entry, others keep it forever.
Trees that could not be resolved completely are not cached.
---
 trustresolver.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index 8331bc9..21c004d 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -228,6 +228,7 @@ func (r *TrustResolver) Resolve() {
 		subordinateIDs:      strset.New(starting.Subject),
 	}
 	r.trustTree.resolve(r.TrustAnchors)
+	r.trustTree.expiresAt = r.trustTree.earliestExpiration()
 	if err = r.cacheSetTrustTree(); err != nil {
 		internal.Log(err.Error())
 	}
@@ -277,6 +278,9 @@ func (r TrustResolver) cacheGetTrustChains() (
 }
 
 func (r TrustResolver) cacheSetTrustChains(chains TrustChains) error {
+	if !r.trustTree.cacheable() {
+		return nil
+	}
 	hash, err := r.hash()
 	if err != nil {
 		return err
@@ -297,9 +301,15 @@ func (r *TrustResolver) cacheGetTrustTree() (
 	set, err = cache.Get(
 		cache.Key(cache.KeyTrustTree, string(hash)), &r.trustTree,
 	)
+	if set {
+		r.trustTree.expiresAt = r.trustTree.earliestExpiration()
+	}
 	return
 }
 func (r TrustResolver) cacheSetTrustTree() error {
+	if !r.trustTree.cacheable() {
+		return nil
+	}
 	hash, err := r.hash()
 	if err != nil {
 		return err
@@ -317,11 +327,32 @@ type trustTree struct {
 	Authorities         []trustTree
 	signaturesVerified  bool
 	expiresAt           unixtime.Unixtime
+	incomplete          bool
 	depth               int
 	includedEntityTypes *strset.Set
 	subordinateIDs      *strset.Set
 }
 
+// earliestExpiration returns the time the first of the statements in the tree expires
+func (t trustTree) earliestExpiration() (exp unixtime.Unixtime) {
+	for _, stmt := range []*EntityStatement{t.Entity, t.Subordinate} {
+		if stmt != nil && !stmt.ExpiresAt.IsZero() && (exp.IsZero() || stmt.ExpiresAt.Before(exp.Time)) {
+			exp = stmt.ExpiresAt
+		}
+	}
+	for _, a := range t.Authorities {
+		if e := a.earliestExpiration(); !e.IsZero() && (exp.IsZero() || e.Before(exp.Time)) {
+			exp = e
+		}
+	}
+	return
+}
+
+// cacheable checks if the tree can be cached, i.e. it was completely resolved and the statements are not yet expired
+func (t trustTree) cacheable() bool {
+	return !t.incomplete && !t.expiresAt.IsZero() && unixtime.Until(t.expiresAt) > 0
+}
+
 func (t *trustTree) resolve(anchors TrustAnchors) {
 	if t.Entity == nil {
 		return
@@ -340,6 +371,8 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 			// loop prevention
 			continue
 		}
+		wasIncomplete := t.incomplete
+		t.incomplete = true // until this authority has been resolved
 		aStmt, err := GetEntityConfiguration(aID)
 		if err != nil {
 			continue
@@ -379,6 +412,7 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 		}
 		tt.resolve(anchors)
 		t.Authorities[i] = tt
+		t.incomplete = wasIncomplete || tt.incomplete
 	}
 }
 
-- 
2.43.0


From e9d90f7b4e881d6017b649a15211dacc4f575803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 04/70] fix: do not share cached trust chains between different
 trust anchor keys

The cache key of trust trees and chains ignored the configured keys of the
trust anchors, so chains verified without pinned keys were served to a
resolver with pinned keys.
---
 trustresolver.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 21c004d..ce44e05 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -147,13 +147,12 @@ type TrustResolver struct {
 }
 
 func (r TrustResolver) hash() ([]byte, error) {
-	tas := make([]string, len(r.TrustAnchors))
-	for i, ta := range r.TrustAnchors {
-		tas[i] = ta.EntityID
-	}
+	// the anchors' keys decide what is trusted, so they are part of the key
+	tas := make([]TrustAnchor, len(r.TrustAnchors))
+	copy(tas, r.TrustAnchors)
 	var forSerialization = struct {
 		StartingEntity string
-		TAs            []string
+		TAs            []TrustAnchor
 		Types          []string
 	}{
 		StartingEntity: r.StartingEntity,
-- 
2.43.0


From b3e36b082b2eb9a9863a5307db4e9d5fa6ad4f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 05/70] fix: do not cache unverified trust chains

Chains() without VerifySignatures() stored its result where
ResolveToValidChains() looks for verified chains.
---
 trustresolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index ce44e05..619859d 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -257,6 +257,10 @@ func (r TrustResolver) Chains() (chains TrustChains) {
 	if chains == nil {
 		return nil
 	}
+	if !r.trustTree.signaturesVerified {
+		// must not be found by a resolver that asks for verified chains
+		return
+	}
 	if err = r.cacheSetTrustChains(chains); err != nil {
 		internal.Log(err.Error())
 	}
-- 
2.43.0


From 79c45410942968f865f34b90513ee4f09ec7fa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 06/70] fix: start every resolution from an empty trust tree

A reused resolver kept the verified tree of its previous run when the new
resolution failed or a cached tree was loaded into it.
---
 trustresolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trustresolver.go b/trustresolver.go
index 619859d..fbb4428 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -198,6 +198,7 @@ func (r *TrustResolver) ResolveToValidChainsWithoutVerifyingMetadata() TrustChai
 
 // Resolve starts the trust chain resolution process, building an internal trust tree
 func (r *TrustResolver) Resolve() {
+	r.trustTree = trustTree{}
 	if found, err := r.cacheGetTrustTree(); err != nil {
 		internal.Log(err.Error())
 	} else if found {
-- 
2.43.0


From a4c521df0044db8980cdb7af318dd3195dc652c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 07/70] fix: do not keep expired entries in the redis cache
 forever

---
 cache/redis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cache/redis.go b/cache/redis.go
index db101ad..6970d3b 100644
--- a/cache/redis.go
+++ b/cache/redis.go
@@ -28,6 +28,10 @@ func (c redisCache) Get(key string, target any) (bool, error) {
 
 // Set implements the Cache interface
 func (c redisCache) Set(key string, value any, expiration time.Duration) error {
+	if expiration <= 0 {
+		// already expired; redis would keep it forever
+		return c.client.Del(c.ctx, key).Err()
+	}
 	data, err := msgpack.Marshal(value)
 	if err != nil {
 		return err
-- 
2.43.0


From 02367b697f8fef4b3295a62dbe6188b7b3ae2a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 08/70] fix: consider custom entity types when checking allowed
 entity types

---
 metadata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata.go b/metadata.go
index a9bf786..e71af46 100644
--- a/metadata.go
+++ b/metadata.go
@@ -3,7 +3,9 @@ package oidfed
 import (
 	"encoding/json"
 	"fmt"
+	"maps"
 	"reflect"
+	"slices"
 	"strings"
 	"unsafe"
 
@@ -40,6 +42,8 @@ func (m Metadata) GuessEntityTypes() (entityTypes []string) {
 			entityTypes = append(entityTypes, jsonTag)
 		}
 	}
+	// custom entity types
+	entityTypes = append(entityTypes, slices.Sorted(maps.Keys(m.Extra))...)
 	return
 }
 
-- 
2.43.0


From e87b7467e381efff60ec2c2150c56a13c8275b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 09/70] fix: do not write into the passed slice when computing
 a union

---
 internal/utils/slices.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index f18a91d..27b0ebe 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -104,6 +104,8 @@ func ReflectUnion(a, b any) any {
 	if out.Len() == 0 {
 		return bV.Interface()
 	}
+	// never append into the spare capacity of the passed slice
+	out = out.Slice3(0, out.Len(), out.Len())
 	for i := 0; i < bV.Len(); i++ {
 		v := bV.Index(i)
 		if !ReflectSliceContains(v.Interface(), out.Interface()) {
-- 
2.43.0


From 84c58bb15d582b806c85afe07ac1ad3b84d880a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 10/70] fix: do not panic on policy operands that are null or
 of another type

---
 internal/utils/slices.go | 82 +++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 44 deletions(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index 27b0ebe..d54cc38 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -21,59 +21,39 @@ func RemoveFromSlice[C comparable](slice []C, v C) []C {
 	return result
 }
 
-// ReflectSliceCast casts a slice to another type using reflection
+// ReflectSliceCast casts a slice to another type using reflection.
+// If this is not possible for all values, the slice is returned as it is.
 func ReflectSliceCast(slice, newType any) any {
-	if !IsSlice(slice) {
+	if !IsSlice(slice) || !IsSlice(newType) {
 		return slice
 	}
 	typeType := reflect.TypeOf(newType)
+	elemType := typeType.Elem()
 	sliceV := reflect.ValueOf(slice)
 	out := reflect.MakeSlice(typeType, sliceV.Len(), sliceV.Len())
 	for i := 0; i < sliceV.Len(); i++ {
 		vv := sliceV.Index(i)
-		var v reflect.Value
-		// This is stupid and has faults, but I did not find a better way
-		switch typeType.Elem().Kind() {
-		case reflect.Bool:
-			v = reflect.ValueOf(vv.Interface().(bool))
-		case reflect.Int:
-			v = reflect.ValueOf(vv.Interface().(int))
-		case reflect.Int8:
-			v = reflect.ValueOf(vv.Interface().(int8))
-		case reflect.Int16:
-			v = reflect.ValueOf(vv.Interface().(int16))
-		case reflect.Int32:
-			v = reflect.ValueOf(vv.Interface().(int32))
-		case reflect.Int64:
-			v = reflect.ValueOf(vv.Interface().(int64))
-		case reflect.Uint:
-			v = reflect.ValueOf(vv.Interface().(uint))
-		case reflect.Uint8:
-			v = reflect.ValueOf(vv.Interface().(uint8))
-		case reflect.Uint16:
-			v = reflect.ValueOf(vv.Interface().(uint16))
-		case reflect.Uint32:
-			v = reflect.ValueOf(vv.Interface().(uint32))
-		case reflect.Uint64:
-			v = reflect.ValueOf(vv.Interface().(uint64))
-		case reflect.Uintptr:
-			v = reflect.ValueOf(vv.Interface().(*uint))
-		case reflect.Float32:
-			v = reflect.ValueOf(vv.Interface().(float32))
-		case reflect.Float64:
-			v = reflect.ValueOf(vv.Interface().(float64))
-		case reflect.Interface:
-			v = vv
-		case reflect.String:
-			v = reflect.ValueOf(vv.Interface().(string))
-		default:
-			v = vv.Convert(typeType.Elem())
+		if elemType.Kind() != reflect.Interface && vv.Kind() == reflect.Interface {
+			vv = vv.Elem()
+		}
+		if !vv.IsValid() || !vv.Type().AssignableTo(elemType) {
+			return slice
 		}
-		out.Index(i).Set(v)
+		out.Index(i).Set(vv)
 	}
 	return out.Interface()
 }
 
+// anySlice returns a slice as []any
+func anySlice(slice any) []any {
+	v := reflect.ValueOf(slice)
+	out := make([]any, v.Len())
+	for i := range out {
+		out[i] = v.Index(i).Interface()
+	}
+	return out
+}
+
 // ReflectSliceContains checks if a slice contains a value using reflection
 func ReflectSliceContains(v, slice any) bool {
 	if !IsSlice(slice) {
@@ -92,18 +72,29 @@ func ReflectSliceContains(v, slice any) bool {
 func ReflectUnion(a, b any) any {
 	as := Slicify(a)
 	bs := Slicify(b)
+	if as == nil {
+		return bs
+	}
+	if bs == nil {
+		return as
+	}
 	out := reflect.ValueOf(as)
 	bV := reflect.ValueOf(bs)
 	if bV.Len() == 0 {
 		return out.Interface()
 	}
-	if out.Len() == 0 || out.Index(0).Type() != bV.Index(0).Type() {
+	if out.Len() == 0 || out.Type() != bV.Type() {
 		bs = ReflectSliceCast(bs, as)
 		bV = reflect.ValueOf(bs)
 	}
 	if out.Len() == 0 {
 		return bV.Interface()
 	}
+	if out.Type() != bV.Type() {
+		// values of different types
+		out = reflect.ValueOf(anySlice(as))
+		bV = reflect.ValueOf(anySlice(bs))
+	}
 	// never append into the spare capacity of the passed slice
 	out = out.Slice3(0, out.Len(), out.Len())
 	for i := 0; i < bV.Len(); i++ {
@@ -119,10 +110,10 @@ func ReflectUnion(a, b any) any {
 func ReflectIntersect(a, b any) any {
 	as := Slicify(a)
 	bs := Slicify(b)
-	aV := reflect.ValueOf(as)
-	if aV.Type() != reflect.ValueOf(bs).Type() {
-		bs = ReflectSliceCast(bs, as)
+	if as == nil || bs == nil {
+		return nil
 	}
+	aV := reflect.ValueOf(as)
 	out := reflect.New(reflect.TypeOf(as)).Elem()
 	for i := 0; i < aV.Len(); i++ {
 		v := aV.Index(i)
@@ -137,6 +128,9 @@ func ReflectIntersect(a, b any) any {
 func ReflectIsSubsetOf(is, of any) bool {
 	is = Slicify(is)
 	of = Slicify(of)
+	if is == nil {
+		return true
+	}
 	isV := reflect.ValueOf(is)
 	for i := 0; i < isV.Len(); i++ {
 		v := isV.Index(i)
-- 
2.43.0


From e5680fd9838ea66bbcfeb0759a331e7adc69fd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 11/70] fix: convert policy results to the parameter's type or
 fail, and see parameters of metadata that was not parsed

---
 metadata.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/metadata.go b/metadata.go
index e71af46..ee7039c 100644
--- a/metadata.go
+++ b/metadata.go
@@ -296,7 +296,13 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 			continue
 		}
 		f := reflect.Indirect(v).Field(i)
-		value, err := p.ApplyTo(f.Interface(), wasSet[t.Field(i).Name], fmt.Sprintf("%s.%s", ownTag, j))
+		pathInfo := fmt.Sprintf("%s.%s", ownTag, j)
+		in := f.Interface()
+		if f.CanInt() {
+			// numbers in policies are float64
+			in = float64(f.Int())
+		}
+		value, err := p.ApplyTo(in, wasSet[t.Field(i).Name] || !f.IsZero(), pathInfo)
 		if err != nil {
 			return nil, err
 		}
@@ -307,16 +313,36 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 				rV = reflect.ValueOf(strings.Join(strSlice, " "))
 			}
 		}
-		if rV.IsValid() {
-			f.Set(rV)
-		} else {
-			f.SetZero()
+		if err = setPolicyResult(f, rV, pathInfo); err != nil {
+			return nil, err
 		}
 	}
 
 	return metadata, nil
 }
 
+// setPolicyResult sets a field to the value resulting from applying a policy
+func setPolicyResult(f, value reflect.Value, pathInfo string) error {
+	if !value.IsValid() {
+		f.SetZero()
+		return nil
+	}
+	if value.Type().AssignableTo(f.Type()) {
+		f.Set(value)
+		return nil
+	}
+	data, err := json.Marshal(value.Interface())
+	if err != nil {
+		return errors.WithStack(err)
+	}
+	target := reflect.New(f.Type())
+	if err = json.Unmarshal(data, target.Interface()); err != nil {
+		return errors.Errorf("metadata policy for '%s' results in a value of the wrong type: %s", pathInfo, data)
+	}
+	f.Set(target.Elem())
+	return nil
+}
+
 // FindEntityMetadata finds metadata for the specified entity type in the
 // metadata and decodes it into the provided metadata object.
 func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
-- 
2.43.0


From b8c2d2e9b0c5bf795ee5ff10130ce35954fabf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 12/70] fix: essential list parameters must be present, false
 and 0 count as present

---
 policyoperators.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/policyoperators.go b/policyoperators.go
index 882e81b..5ee9f09 100644
--- a/policyoperators.go
+++ b/policyoperators.go
@@ -350,8 +350,7 @@ var policyOperatorEssential = NewPolicyOperator(
 		if policyValue == nil {
 			return value, valueSet, nil
 		}
-		if essential, eok := policyValue.(bool); eok && essential &&
-			(value == nil || (!utils.IsSlice(value) && reflect.ValueOf(value).IsZero())) {
+		if essential, eok := policyValue.(bool); eok && essential && (!valueSet || isEmptyValue(value)) {
 			return nil, valueSet, errors.Errorf("metadata value for '%s' not set but required", pathInfo)
 		}
 		return value, valueSet, nil
@@ -359,6 +358,21 @@ var policyOperatorEssential = NewPolicyOperator(
 	nil,
 )
 
+// isEmptyValue checks if a value does not count as a present metadata value
+func isEmptyValue(value any) bool {
+	if value == nil {
+		return true
+	}
+	v := reflect.ValueOf(value)
+	switch v.Kind() {
+	case reflect.Slice, reflect.Bool, reflect.Int64, reflect.Float64:
+		// empty lists, false, and 0 are values
+		return false
+	default:
+		return v.IsZero()
+	}
+}
+
 func init() {
 	operators = make(map[PolicyOperatorName]PolicyOperator)
 	RegisterPolicyOperator(policyOperatorSubsetOf)
-- 
2.43.0


From 6cf0ec845fabf21e654d69d3abbba2617a0f907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 13/70] fix: ignore only the unknown policy operator, not the
 whole policy entry

---
 metadataPolicy.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index e79c97b..4750a32 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -213,7 +213,7 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 		if !ok {
 			// return nil, errors.Errorf("unknown policy operator '%s'; cannot combine these policies", op)
 			// We already checked that this is not a crit operator, so it is just ignored
-			return nil, nil
+			continue
 		}
 		combined, err := operator.Merge(av, bv, pathInfo)
 		if err != nil {
@@ -232,12 +232,15 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 
 // Verify verifies that the MetadataPolicyEntry is valid
 func (p MetadataPolicyEntry) Verify(pathInfo string) error {
-	activeOperators := utils.MapKeys(p)
-	for _, opN := range activeOperators {
-		op, ok := operators[opN]
-		if !ok {
-			continue
+	activeOperators := make([]PolicyOperatorName, 0, len(p))
+	for _, opN := range utils.MapKeys(p) {
+		// unknown operators are ignored, if they are not critical
+		if _, ok := operators[opN]; ok {
+			activeOperators = append(activeOperators, opN)
 		}
+	}
+	for _, opN := range activeOperators {
+		op := operators[opN]
 		mayCombine := op.MayCombineWith()
 		if mayCombine == nil {
 			continue
-- 
2.43.0


From 62399a20998a717851dde90185906206358ae848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 14/70] fix: verify policies that are not merged with another
 one, too

---
 metadataPolicy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index 4750a32..38c4e47 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -177,7 +177,7 @@ func combineMetadataPolicy(parent, sub MetadataPolicy, pathInfo string) (Metadat
 		return parent, nil
 	}
 	if len(parent) == 0 {
-		return sub, nil
+		return sub, sub.Verify(pathInfo)
 	}
 	out := make(MetadataPolicy)
 	for k, pv := range parent {
-- 
2.43.0


From 062909e76ba0718b74eff3a1ee7f955770462e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 15/70] fix: support metadata policies for custom entity types

---
 metadata.go       | 28 +++++++++++++++++++++++++++-
 metadataPolicy.go |  8 ++++++--
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/metadata.go b/metadata.go
index ee7039c..fe57529 100644
--- a/metadata.go
+++ b/metadata.go
@@ -258,7 +258,11 @@ func (m Metadata) ApplyPolicy(p *MetadataPolicies) (*Metadata, error) {
 			var metadataToReturn interface{}
 			if policy, ok := p.Extra[entityType]; ok {
 				// Found a policy for the entity type, so apply it
-				applied, err := applyPolicy(metadata, policy, entityType)
+				params, isMap := metadata.(map[string]any)
+				if !isMap {
+					return nil, errors.Errorf("metadata for '%s' is not an object", entityType)
+				}
+				applied, err := applyPolicyToMap(params, policy, entityType)
 				if err != nil {
 					return nil, err
 				}
@@ -321,6 +325,28 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 	return metadata, nil
 }
 
+// applyPolicyToMap applies a MetadataPolicy to metadata parameters without dedicated fields and returns the resulting
+// parameters
+func applyPolicyToMap(params map[string]any, policy MetadataPolicy, ownTag string) (map[string]any, error) {
+	out := maps.Clone(params)
+	if out == nil {
+		out = make(map[string]any)
+	}
+	for param, p := range policy {
+		in, set := params[param]
+		value, err := p.ApplyTo(in, set, fmt.Sprintf("%s.%s", ownTag, param))
+		if err != nil {
+			return nil, err
+		}
+		if value == nil {
+			delete(out, param)
+		} else {
+			out[param] = value
+		}
+	}
+	return out, nil
+}
+
 // setPolicyResult sets a field to the value resulting from applying a policy
 func setPolicyResult(f, value reflect.Value, pathInfo string) error {
 	if !value.IsValid() {
diff --git a/metadataPolicy.go b/metadataPolicy.go
index 38c4e47..d1cd000 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -53,8 +53,12 @@ func (m *MetadataPolicies) UnmarshalJSON(data []byte) error {
 	if len(extra) > 0 {
 		policyMap := make(map[string]MetadataPolicy)
 		for k, v := range extra {
-			policy, ok := v.(MetadataPolicy)
-			if !ok {
+			policyData, err := json.Marshal(v)
+			if err != nil {
+				return errors.WithStack(err)
+			}
+			var policy MetadataPolicy
+			if err = json.Unmarshal(policyData, &policy); err != nil {
 				return errors.Errorf("non MetadataPolicy in metadata policies")
 			}
 
-- 
2.43.0


From 7eb57ab6c9857e938e3e0375fa3cdaed150e8507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 16/70] fix: apply metadata policies to parameters without a
 dedicated field, too

---
 metadata.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metadata.go b/metadata.go
index fe57529..088cd74 100644
--- a/metadata.go
+++ b/metadata.go
@@ -289,6 +289,7 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 
 	wasSetField := v.Elem().FieldByName("wasSet")
 	wasSet := *(*map[string]bool)(unsafe.Pointer(wasSetField.UnsafeAddr())) // skipcq:  GSC-G103
+	extraPolicy := maps.Clone(policy)
 	for i := 0; i < t.NumField(); i++ {
 		j, ok := t.Field(i).Tag.Lookup("json")
 		if !ok {
@@ -299,6 +300,7 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 		if !ok {
 			continue
 		}
+		delete(extraPolicy, j)
 		f := reflect.Indirect(v).Field(i)
 		pathInfo := fmt.Sprintf("%s.%s", ownTag, j)
 		in := f.Interface()
@@ -321,7 +323,15 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 			return nil, err
 		}
 	}
-
+	if len(extraPolicy) == 0 {
+		return metadata, nil
+	}
+	extraField := v.Elem().FieldByName("Extra")
+	extra, err := applyPolicyToMap(extraField.Interface().(map[string]any), extraPolicy, ownTag)
+	if err != nil {
+		return nil, err
+	}
+	extraField.Set(reflect.ValueOf(extra))
 	return metadata, nil
 }
 
-- 
2.43.0


From cf6bb3b70e4eef3733fa72ada619f09bfa3d3bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 17/70] fix: apply list operators to the single scope values

---
 metadata.go       |  9 ++++++++-
 metadataPolicy.go | 13 +++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/metadata.go b/metadata.go
index 088cd74..ab3ffa9 100644
--- a/metadata.go
+++ b/metadata.go
@@ -10,6 +10,8 @@ import (
 	"unsafe"
 
 	"github.com/pkg/errors"
+
+	"github.com/go-oidfed/lib/internal/utils"
 )
 
 // Metadata is a type for holding the different metadata types
@@ -308,13 +310,18 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 			// numbers in policies are float64
 			in = float64(f.Int())
 		}
+		if _, oneOf := p[PolicyOperatorOneOf]; t.Field(i).Name == "Scope" && !oneOf {
+			// space-delimited values are treated as a list
+			in = append([]string(nil), strings.Fields(f.String())...)
+			p = p.splitStrings()
+		}
 		value, err := p.ApplyTo(in, wasSet[t.Field(i).Name] || !f.IsZero(), pathInfo)
 		if err != nil {
 			return nil, err
 		}
 		rV := reflect.ValueOf(value)
 		if t.Field(i).Name == "Scope" && rV.IsValid() && rV.Kind() == reflect.Slice {
-			strSlice, ok := value.([]string)
+			strSlice, ok := utils.ReflectSliceCast(value, []string{}).([]string)
 			if ok {
 				rV = reflect.ValueOf(strings.Join(strSlice, " "))
 			}
diff --git a/metadataPolicy.go b/metadataPolicy.go
index d1cd000..74a41f4 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -3,6 +3,7 @@ package oidfed
 import (
 	"encoding/json"
 	"fmt"
+	"strings"
 
 	"github.com/pkg/errors"
 	"tideland.dev/go/slices"
@@ -265,6 +266,18 @@ func (p MetadataPolicyEntry) Verify(pathInfo string) error {
 	return nil
 }
 
+// splitStrings returns a MetadataPolicyEntry where space-delimited strings are replaced by the list of their values
+func (p MetadataPolicyEntry) splitStrings() MetadataPolicyEntry {
+	out := make(MetadataPolicyEntry, len(p))
+	for op, v := range p {
+		if s, ok := v.(string); ok {
+			v = strings.Fields(s)
+		}
+		out[op] = v
+	}
+	return out
+}
+
 // ApplyTo applies this MetadataPolicyEntry to the passed value and returns the resulting value
 func (p MetadataPolicyEntry) ApplyTo(value any, valueSet bool, pathInfo string) (any, error) {
 	var err error
-- 
2.43.0


From e7c07c0783d56e96cbb44dd786f4142e931acf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 18/70] fix: keep the information which metadata parameters
 were set when caching

---
 internal/generators/metadata.go | 13 +++++++++++
 metadata.go                     | 38 +++++++++++++++++++++++++++++++++
 metadata_generated.go           | 28 ++++++++++++++++++++++++
 3 files changed, 79 insertions(+)

diff --git a/internal/generators/metadata.go b/internal/generators/metadata.go
index 12ba173..4e44d5f 100644
--- a/internal/generators/metadata.go
+++ b/internal/generators/metadata.go
@@ -317,6 +317,19 @@ func (m *%s) UnmarshalMsgpack(data []byte) error {
 
 	unmarshalMsgpack(&sb, withPtrsName)
 
+	sb.WriteString(
+		fmt.Sprintf(
+			`
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m %s) MarshalMsgpack() ([]byte, error) {
+	var withPtrs %s
+	toPointers(m, &withPtrs, m.wasSet)
+	return msgpack.Marshal(withPtrs)
+}
+`, name, withPtrsName,
+		),
+	)
+
 	sb.WriteString(
 		fmt.Sprintf(
 			`
diff --git a/metadata.go b/metadata.go
index ab3ffa9..581a37d 100644
--- a/metadata.go
+++ b/metadata.go
@@ -432,6 +432,24 @@ func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
 	return json.Unmarshal(jsonMetadata, metadata)
 }
 
+// toPointers sets the fields of a ...WithPtrs metadata from the metadata, so that the information which fields were
+// set is kept
+func toPointers(metadata, withPtrs any, wasSet map[string]bool) {
+	v := reflect.ValueOf(metadata)
+	out := reflect.ValueOf(withPtrs).Elem()
+	for i := 0; i < out.NumField(); i++ {
+		name := out.Type().Field(i).Name
+		f := v.FieldByName(name)
+		target := out.Field(i)
+		if target.Type() == f.Type() {
+			target.Set(f)
+		} else if wasSet[name] || !f.IsZero() {
+			target.Set(reflect.New(f.Type()))
+			target.Elem().Set(f)
+		}
+	}
+}
+
 // OAuthClientMetadata is a type for holding the metadata about an oauth client
 type OAuthClientMetadata OpenIDRelyingPartyMetadata
 type oAuthClientMetadataWithPtrs openIDRelyingPartyMetadataWithPtrs
@@ -471,6 +489,16 @@ func (m *oAuthAuthorizationServerMetadataWithPtrs) UnmarshalJSON(data []byte) er
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OAuthAuthorizationServerMetadata) MarshalMsgpack() ([]byte, error) {
+	return OpenIDProviderMetadata(m).MarshalMsgpack()
+}
+
+// UnmarshalMsgpack implements the msgpack.Unmarshaler interface
+func (m *OAuthAuthorizationServerMetadata) UnmarshalMsgpack(data []byte) error {
+	return (*OpenIDProviderMetadata)(m).UnmarshalMsgpack(data)
+}
+
 // ApplyPolicy applies a MetadataPolicy to the OAuthAuthorizationServerMetadata
 func (m OAuthAuthorizationServerMetadata) ApplyPolicy(policy MetadataPolicy) (any, error) {
 	return applyPolicy(&m, policy, "oauth_authorization_server")
@@ -506,6 +534,16 @@ func (m *oAuthClientMetadataWithPtrs) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OAuthClientMetadata) MarshalMsgpack() ([]byte, error) {
+	return OpenIDRelyingPartyMetadata(m).MarshalMsgpack()
+}
+
+// UnmarshalMsgpack implements the msgpack.Unmarshaler interface
+func (m *OAuthClientMetadata) UnmarshalMsgpack(data []byte) error {
+	return (*OpenIDRelyingPartyMetadata)(m).UnmarshalMsgpack(data)
+}
+
 // ApplyPolicy applies a MetadataPolicy to the OAuthClientMetadata
 func (m OAuthClientMetadata) ApplyPolicy(policy MetadataPolicy) (any, error) {
 	return applyPolicy(&m, policy, "oauth_client")
diff --git a/metadata_generated.go b/metadata_generated.go
index 7103400..4b7ebf6 100644
--- a/metadata_generated.go
+++ b/metadata_generated.go
@@ -141,6 +141,13 @@ func (m *federationEntityMetadataWithPtrs) UnmarshalMsgpack(data []byte) error {
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m FederationEntityMetadata) MarshalMsgpack() ([]byte, error) {
+	var withPtrs federationEntityMetadataWithPtrs
+	toPointers(m, &withPtrs, m.wasSet)
+	return msgpack.Marshal(withPtrs)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *FederationEntityMetadata) UnmarshalMsgpack(data []byte) error {
 	var withPtrs federationEntityMetadataWithPtrs
@@ -390,6 +397,13 @@ func (m *openIDRelyingPartyMetadataWithPtrs) UnmarshalMsgpack(data []byte) error
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OpenIDRelyingPartyMetadata) MarshalMsgpack() ([]byte, error) {
+	var withPtrs openIDRelyingPartyMetadataWithPtrs
+	toPointers(m, &withPtrs, m.wasSet)
+	return msgpack.Marshal(withPtrs)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *OpenIDRelyingPartyMetadata) UnmarshalMsgpack(data []byte) error {
 	var withPtrs openIDRelyingPartyMetadataWithPtrs
@@ -663,6 +677,13 @@ func (m *openIDProviderMetadataWithPtrs) UnmarshalMsgpack(data []byte) error {
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OpenIDProviderMetadata) MarshalMsgpack() ([]byte, error) {
+	var withPtrs openIDProviderMetadataWithPtrs
+	toPointers(m, &withPtrs, m.wasSet)
+	return msgpack.Marshal(withPtrs)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *OpenIDProviderMetadata) UnmarshalMsgpack(data []byte) error {
 	var withPtrs openIDProviderMetadataWithPtrs
@@ -822,6 +843,13 @@ func (m *oAuthProtectedResourceMetadataWithPtrs) UnmarshalMsgpack(data []byte) e
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OAuthProtectedResourceMetadata) MarshalMsgpack() ([]byte, error) {
+	var withPtrs oAuthProtectedResourceMetadataWithPtrs
+	toPointers(m, &withPtrs, m.wasSet)
+	return msgpack.Marshal(withPtrs)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *OAuthProtectedResourceMetadata) UnmarshalMsgpack(data []byte) error {
 	var withPtrs oAuthProtectedResourceMetadataWithPtrs
-- 
2.43.0


From b0475c8e0abb1cd9ab9f1f85a227d49802528a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 19/70] fix: do not take a policy for the parameter '-' for the
 extra parameters

---
 metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata.go b/metadata.go
index 581a37d..1b673f8 100644
--- a/metadata.go
+++ b/metadata.go
@@ -294,7 +294,7 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 	extraPolicy := maps.Clone(policy)
 	for i := 0; i < t.NumField(); i++ {
 		j, ok := t.Field(i).Tag.Lookup("json")
-		if !ok {
+		if !ok || j == "-" {
 			continue
 		}
 		j = strings.TrimSuffix(j, ",omitempty")
-- 
2.43.0


From 39240db0f32f10b95232735198ddc7a9ebbc8675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:17 +0000
Subject: [PATCH 20/70] fix: keep an empty subset_of restriction
 distinguishable from none when encoding policies

---
 internal/utils/slices.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index d54cc38..cf37fff 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -114,7 +114,7 @@ func ReflectIntersect(a, b any) any {
 		return nil
 	}
 	aV := reflect.ValueOf(as)
-	out := reflect.New(reflect.TypeOf(as)).Elem()
+	out := reflect.MakeSlice(reflect.TypeOf(as), 0, 0)
 	for i := 0; i < aV.Len(); i++ {
 		v := aV.Index(i)
 		if ReflectSliceContains(v.Interface(), bs) {
-- 
2.43.0


From 3fab209854d9ecad79c9b171d1f25fef6ab11bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 21/70] fix: treat null parameters without a dedicated field as
 absent in policies

---
 metadata.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metadata.go b/metadata.go
index 1b673f8..8d317f4 100644
--- a/metadata.go
+++ b/metadata.go
@@ -351,7 +351,8 @@ func applyPolicyToMap(params map[string]any, policy MetadataPolicy, ownTag strin
 	}
 	for param, p := range policy {
 		in, set := params[param]
-		value, err := p.ApplyTo(in, set, fmt.Sprintf("%s.%s", ownTag, param))
+		// null is the same as absent
+		value, err := p.ApplyTo(in, set && in != nil, fmt.Sprintf("%s.%s", ownTag, param))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From bec58349483a88d4a4b1b10e02803eade50fa913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 22/70] fix: do not take value operators with duplicate values
 for equal to others

---
 internal/utils/slices.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index cf37fff..cb7ea72 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -154,8 +154,7 @@ func IsSlice(v interface{}) bool {
 	return reflect.TypeOf(v).Kind() == reflect.Slice
 }
 
-// SliceEqual uses reflection to check if two slices contain the same elements; order does not matter,
-// assumes no duplicate entries in a slice
+// SliceEqual uses reflection to check if two slices contain the same elements; order and duplicates do not matter
 func SliceEqual(a, b interface{}) bool {
 	if a == nil || b == nil {
 		return a == b
@@ -164,14 +163,16 @@ func SliceEqual(a, b interface{}) bool {
 	bs := Slicify(b)
 	aV := reflect.ValueOf(as)
 	bV := reflect.ValueOf(bs)
-	if aV.Len() != bV.Len() {
-		return false
-	}
 	for i := 0; i < aV.Len(); i++ {
 		if !ReflectSliceContains(aV.Index(i).Interface(), bs) {
 			return false
 		}
 	}
+	for i := 0; i < bV.Len(); i++ {
+		if !ReflectSliceContains(bV.Index(i).Interface(), as) {
+			return false
+		}
+	}
 	return true
 }
 
-- 
2.43.0


From 8a13273c42acc56591822c1584225b5c8a66348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 23/70] fix: sort trust chains together with their scores

---
 trustchainfilter.go | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/trustchainfilter.go b/trustchainfilter.go
index f253fce..eb3296f 100644
--- a/trustchainfilter.go
+++ b/trustchainfilter.go
@@ -18,6 +18,29 @@ func (c TrustChains) Filter(filter ...TrustChainsFilter) TrustChains {
 	return c
 }
 
+// chainsByScore implements the sort.Interface; it keeps the scores with their chains
+type chainsByScore struct {
+	chains TrustChains
+	scores []int
+	less   func(a, b int) bool
+}
+
+// Len implements the sort.Interface
+func (s chainsByScore) Len() int {
+	return len(s.chains)
+}
+
+// Less implements the sort.Interface
+func (s chainsByScore) Less(i, j int) bool {
+	return s.less(s.scores[i], s.scores[j])
+}
+
+// Swap implements the sort.Interface
+func (s chainsByScore) Swap(i, j int) {
+	s.chains[i], s.chains[j] = s.chains[j], s.chains[i]
+	s.scores[i], s.scores[j] = s.scores[j], s.scores[i]
+}
+
 // SortAsc sorts multiple TrustChains ascending by using the passed TrustChainScoringFnc
 func (c TrustChains) SortAsc(scorer TrustChainScoringFnc) TrustChains {
 	scores := make([]int, len(c))
@@ -25,9 +48,13 @@ func (c TrustChains) SortAsc(scorer TrustChainScoringFnc) TrustChains {
 		scores[i] = scorer(tc)
 	}
 
-	sort.Slice(
-		c, func(i, j int) bool {
-			return scores[i] < scores[j] // skipcq: GO-W4009
+	sort.Stable(
+		chainsByScore{
+			chains: c,
+			scores: scores,
+			less: func(a, b int) bool {
+				return a < b
+			},
 		},
 	)
 	return c
@@ -40,9 +67,13 @@ func (c TrustChains) SortDesc(scorer TrustChainScoringFnc) TrustChains {
 		scores[i] = scorer(tc)
 	}
 
-	sort.Slice(
-		c, func(i, j int) bool {
-			return scores[i] > scores[j] // skipcq: GO-W4009
+	sort.Stable(
+		chainsByScore{
+			chains: c,
+			scores: scores,
+			less: func(a, b int) bool {
+				return a > b
+			},
 		},
 	)
 	return c
-- 
2.43.0


From c691402f1806b757bc56f7dd627167d717705593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 24/70] fix: a negative maximum path length excludes all chains

---
 trustchainfilter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trustchainfilter.go b/trustchainfilter.go
index eb3296f..c1b0738 100644
--- a/trustchainfilter.go
+++ b/trustchainfilter.go
@@ -157,6 +157,7 @@ func TrustChainsFilterTrustAnchor(anchor string) TrustChainsFilter {
 
 type trustChainsFilterPathLength struct {
 	maxPathLen int
+	minimal    bool // use the minimal path len of the chains instead of maxPathLen
 }
 
 // Filter implements the TrustChainsFilter interface
@@ -164,7 +165,7 @@ func (f trustChainsFilterPathLength) Filter(chains TrustChains) (final TrustChai
 	if len(chains) == 0 {
 		return nil
 	}
-	if f.maxPathLen < 0 {
+	if f.minimal {
 		minimum := chains[0].PathLen()
 		for i := 1; i < len(chains); i++ {
 			if l := chains[i].PathLen(); l < minimum {
@@ -183,7 +184,7 @@ func (f trustChainsFilterPathLength) Filter(chains TrustChains) (final TrustChai
 
 // TrustChainsFilterMinPathLength is a TrustChainsFilter that filters TrustChains to the chains with the minimal path
 // length
-var TrustChainsFilterMinPathLength TrustChainsFilter = trustChainsFilterPathLength{maxPathLen: -1}
+var TrustChainsFilterMinPathLength TrustChainsFilter = trustChainsFilterPathLength{minimal: true}
 
 // TrustChainsFilterValidMetadata returns a TrustChainsFilter that filters the TrustChains to the ones with valid
 // Metadata
-- 
2.43.0


From 4ae5ca8213a7c82f52443a3934706104ad6ac0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 25/70] fix: write timestamps outside of the years 1678 to 2262
 correctly

---
 unixtime/unixtime.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unixtime/unixtime.go b/unixtime/unixtime.go
index 8011d4a..20eeb50 100644
--- a/unixtime/unixtime.go
+++ b/unixtime/unixtime.go
@@ -30,7 +30,8 @@ func (u Unixtime) MarshalJSON() ([]byte, error) {
 	if u.IsZero() {
 		return json.Marshal(0)
 	}
-	return json.Marshal(float64(u.UnixNano()) / 1e9)
+	// not UnixNano, which is limited to the years 1678 to 2262
+	return json.Marshal(float64(u.Unix()) + float64(u.Nanosecond())/1e9)
 }
 
 // Until returns the time.Duration from now until an Unixtime
-- 
2.43.0


From bf29b82b7fcea1668bbcdc5d243cf958ba6d30b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 26/70] fix: keep the fraction of durations given in seconds

---
 unixtime/unixtime.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unixtime/unixtime.go b/unixtime/unixtime.go
index 20eeb50..c6ff551 100644
--- a/unixtime/unixtime.go
+++ b/unixtime/unixtime.go
@@ -67,7 +67,7 @@ func (d *DurationInSeconds) UnmarshalJSON(src []byte) error {
 	if err := json.Unmarshal(src, &f); err != nil {
 		return err
 	}
-	*d = DurationInSeconds{time.Duration(f) * time.Second}
+	*d = NewDurationInSeconds(f)
 	return nil
 }
 
@@ -77,7 +77,7 @@ func (d *DurationInSeconds) UnmarshalYAML(value *yaml.Node) error {
 	if err := value.Decode(&f); err != nil {
 		return err
 	}
-	*d = DurationInSeconds{time.Duration(f) * time.Second}
+	*d = NewDurationInSeconds(f)
 	return nil
 }
 
-- 
2.43.0


From bda08e7597f743aac48c60aa3a32f1b79b2af682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 27/70] fix: do not keep an entry with a lifetime of -1ns in
 the in-memory cache forever

---
 cache/cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index 635d577..d6e6923 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -50,6 +50,11 @@ func (c cacheWrapper) Get(key string, target any) (bool, error) {
 
 // Set implements the Cache interface
 func (c cacheWrapper) Set(key string, value any, expiration time.Duration) error {
+	if expiration <= 0 {
+		// already expired; gocache would keep it forever if it is -1ns
+		c.c.Delete(key)
+		return nil
+	}
 	data, err := msgpack.Marshal(value)
 	if err != nil {
 		return err
-- 
2.43.0


From 30382b71a56930d6bc946ce054860a7c19c38f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 28/70] fix: refresh cached statements late in their lifetime,
 not early in it

---
 trustresolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustresolver.go b/trustresolver.go
index fbb4428..43c7dbb 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -589,7 +589,7 @@ func getEntityStatementOrConfiguration(
 		go func() {
 			remainingLifetime := time.Until(stmt.ExpiresAt.Time)
 			totalLifetime := stmt.ExpiresAt.Sub(stmt.IssuedAt.Time)
-			if remainingLifetime <= ResolverCacheGracePeriod && float64(remainingLifetime)/float64(totalLifetime) > ResolverCacheLifetimeElapsedGraceFactor {
+			if remainingLifetime <= ResolverCacheGracePeriod && float64(totalLifetime-remainingLifetime)/float64(totalLifetime) >= ResolverCacheLifetimeElapsedGraceFactor {
 				internal.Log("Within grace period, refreshing entity statement")
 				_, err := obtainAndSetEntityStatementOrConfiguration(
 					subID,
-- 
2.43.0


From 4fba8f14a85fa5f9792b53c5ea785b74804bc2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 29/70] fix: do not let a statement about another entity or
 that is not valid replace a cached one

---
 trustresolver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index 43c7dbb..c901c96 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -614,6 +614,11 @@ func obtainAndSetEntityStatementOrConfiguration(
 		return nil, err
 	}
 	internal.Log("Obtained entity statement from http")
+	if stmt.Issuer != issID || stmt.Subject != subID || !stmt.TimeValid() {
+		// must not replace a valid statement
+		internal.Logf("Not caching invalid entity statement about %+q issued by %+q", subID, issID)
+		return stmt, nil
+	}
 	entityStmtCacheSet(subID, issID, stmt)
 	return stmt, nil
 }
-- 
2.43.0


From db5eae69b1feb68c5535c7d9097c88bf22c344c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 30/70] fix: keep explicit false and 0 in metadata when
 encoding it

---
 internal/generators/metadata.go | 10 ++++-----
 metadata.go                     | 36 ++++++++++++++++++++++++++++++++-
 metadata_generated.go           |  8 ++++----
 3 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/internal/generators/metadata.go b/internal/generators/metadata.go
index 4e44d5f..64f4a60 100644
--- a/internal/generators/metadata.go
+++ b/internal/generators/metadata.go
@@ -199,7 +199,7 @@ func fieldTypeAsPtrString(expr ast.Expr) string {
 func generateMarshalUnmarshalFunctions(name, withPtrsName string) string {
 	var sb strings.Builder
 
-	marshal := func(sb *strings.Builder, name string) {
+	marshal := func(sb *strings.Builder, name, extra string) {
 		_, _ = fmt.Fprintf(
 			sb,
 			`
@@ -210,9 +210,9 @@ func (m %s) MarshalJSON() ([]byte, error) {
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-	return extraMarshalHelper(explicitFields, m.Extra)
+	return extraMarshalHelper(explicitFields, %s)
 }
-`, name, name,
+`, name, name, extra,
 		)
 	}
 
@@ -256,8 +256,8 @@ func (m *%s)fromPointers(withPtrs %s) {
 		)
 	}
 
-	marshal(&sb, name)
-	marshal(&sb, withPtrsName)
+	marshal(&sb, name, "withExplicitZeros(m, m.wasSet, m.Extra)")
+	marshal(&sb, withPtrsName, "m.Extra")
 
 	unmarshalHelper(&sb, name, withPtrsName)
 
diff --git a/metadata.go b/metadata.go
index 8d317f4..7d5ddb8 100644
--- a/metadata.go
+++ b/metadata.go
@@ -290,7 +290,8 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 	t := v.Elem().Type()
 
 	wasSetField := v.Elem().FieldByName("wasSet")
-	wasSet := *(*map[string]bool)(unsafe.Pointer(wasSetField.UnsafeAddr())) // skipcq:  GSC-G103
+	wasSetPtr := (*map[string]bool)(unsafe.Pointer(wasSetField.UnsafeAddr())) // skipcq:  GSC-G103
+	wasSet := *wasSetPtr
 	extraPolicy := maps.Clone(policy)
 	for i := 0; i < t.NumField(); i++ {
 		j, ok := t.Field(i).Tag.Lookup("json")
@@ -329,6 +330,15 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 		if err = setPolicyResult(f, rV, pathInfo); err != nil {
 			return nil, err
 		}
+		if set := rV.IsValid(); f.IsZero() && wasSet[t.Field(i).Name] != set {
+			// the result has its own record of what is set
+			wasSet = maps.Clone(wasSet)
+			if wasSet == nil {
+				wasSet = make(map[string]bool)
+			}
+			wasSet[t.Field(i).Name] = set
+			*wasSetPtr = wasSet
+		}
 	}
 	if len(extraPolicy) == 0 {
 		return metadata, nil
@@ -433,6 +443,30 @@ func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
 	return json.Unmarshal(jsonMetadata, metadata)
 }
 
+// withExplicitZeros returns the extra members together with those numbers and booleans of the metadata that were
+// explicitly set to 0 or false, which omitempty leaves out
+func withExplicitZeros(metadata any, wasSet map[string]bool, extra map[string]any) map[string]any {
+	v := reflect.ValueOf(metadata)
+	out := extra
+	for name, set := range wasSet {
+		f := v.FieldByName(name)
+		if !set || !f.IsValid() || !f.IsZero() || (f.Kind() != reflect.Bool && !f.CanInt()) {
+			continue
+		}
+		structField, _ := v.Type().FieldByName(name)
+		tag, _, _ := strings.Cut(structField.Tag.Get("json"), ",")
+		if _, found := extra[tag]; found || tag == "" || tag == "-" {
+			continue
+		}
+		if len(out) == len(extra) {
+			out = make(map[string]any, len(extra)+1)
+			maps.Copy(out, extra)
+		}
+		out[tag] = f.Interface()
+	}
+	return out
+}
+
 // toPointers sets the fields of a ...WithPtrs metadata from the metadata, so that the information which fields were
 // set is kept
 func toPointers(metadata, withPtrs any, wasSet map[string]bool) {
diff --git a/metadata_generated.go b/metadata_generated.go
index 4b7ebf6..0cd4578 100644
--- a/metadata_generated.go
+++ b/metadata_generated.go
@@ -59,7 +59,7 @@ func (m FederationEntityMetadata) MarshalJSON() ([]byte, error) {
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-	return extraMarshalHelper(explicitFields, m.Extra)
+	return extraMarshalHelper(explicitFields, withExplicitZeros(m, m.wasSet, m.Extra))
 }
 
 // MarshalJSON implements the json.Marshaler interface
@@ -315,7 +315,7 @@ func (m OpenIDRelyingPartyMetadata) MarshalJSON() ([]byte, error) {
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-	return extraMarshalHelper(explicitFields, m.Extra)
+	return extraMarshalHelper(explicitFields, withExplicitZeros(m, m.wasSet, m.Extra))
 }
 
 // MarshalJSON implements the json.Marshaler interface
@@ -595,7 +595,7 @@ func (m OpenIDProviderMetadata) MarshalJSON() ([]byte, error) {
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-	return extraMarshalHelper(explicitFields, m.Extra)
+	return extraMarshalHelper(explicitFields, withExplicitZeros(m, m.wasSet, m.Extra))
 }
 
 // MarshalJSON implements the json.Marshaler interface
@@ -761,7 +761,7 @@ func (m OAuthProtectedResourceMetadata) MarshalJSON() ([]byte, error) {
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-	return extraMarshalHelper(explicitFields, m.Extra)
+	return extraMarshalHelper(explicitFields, withExplicitZeros(m, m.wasSet, m.Extra))
 }
 
 // MarshalJSON implements the json.Marshaler interface
-- 
2.43.0


From 87d9c86151658f3568bc43760f577fc42da65a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 31/70] fix: do not take members whose names differ in letter
 case for known ones

---
 entitystatement.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/entitystatement.go b/entitystatement.go
index 816bbe3..ce1e838 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -133,20 +133,39 @@ func (e EntityStatementPayload) MarshalJSON() ([]byte, error) {
 	return extraMarshalHelper(explicitFields, e.Extra)
 }
 
+// unmarshalWithExtra unmarshals the members of a json object that the target has fields for into the target and
+// returns all others. Names of members are case-sensitive; so only the members with the exact names are passed on, since
+// encoding/json would also accept others.
 func unmarshalWithExtra(data []byte, target interface{}) (map[string]interface{}, error) {
-	if err := json.Unmarshal(data, target); err != nil {
-		return nil, errors.WithStack(err)
-	}
-	extra := make(map[string]interface{})
-	if err := json.Unmarshal(data, &extra); err != nil {
+	var members map[string]json.RawMessage
+	if err := json.Unmarshal(data, &members); err != nil {
 		return nil, errors.WithStack(err)
 	}
+	known := make(map[string]json.RawMessage, len(members))
 	s := structs.New(target)
 	for _, tag := range utils.FieldTagNames(s.Fields(), "json") {
-		delete(extra, tag)
+		if member, found := members[tag]; found {
+			known[tag] = member
+			delete(members, tag)
+		}
 	}
-	if len(extra) == 0 {
-		extra = nil
+	knownData, err := json.Marshal(known)
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	if err = json.Unmarshal(knownData, target); err != nil {
+		return nil, errors.WithStack(err)
+	}
+	if len(members) == 0 {
+		return nil, nil
+	}
+	extra := make(map[string]interface{}, len(members))
+	for name, member := range members {
+		var value interface{}
+		if err = json.Unmarshal(member, &value); err != nil {
+			return nil, errors.WithStack(err)
+		}
+		extra[name] = value
 	}
 	return extra, nil
 }
-- 
2.43.0


From de4ee258d2c2b75942e10ee3e4db4713a4e4289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 32/70] fix: decode the claims of a resolve response and encode
 one without payload

---
 trustresolver.go | 58 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index c901c96..2359d2b 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -47,6 +47,15 @@ type ResolveResponse struct {
 	ResolveResponsePayload `json:",inline"`
 }
 
+// resolveResponseClaims are the claims of a ResolveResponse apart from the ResolveResponsePayload
+type resolveResponseClaims struct {
+	Issuer    string            `json:"iss"`
+	Subject   string            `json:"sub"`
+	IssuedAt  unixtime.Unixtime `json:"iat"`
+	ExpiresAt unixtime.Unixtime `json:"exp"`
+	Audience  string            `json:"aud,omitempty"`
+}
+
 // MarshalJSON implements the json.Marshaler interface.
 // It also marshals extra fields.
 func (r ResolveResponse) MarshalJSON() ([]byte, error) {
@@ -54,15 +63,8 @@ func (r ResolveResponse) MarshalJSON() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	type additionalData struct {
-		Issuer    string            `json:"iss"`
-		Subject   string            `json:"sub"`
-		IssuedAt  unixtime.Unixtime `json:"iat"`
-		ExpiresAt unixtime.Unixtime `json:"exp"`
-		Audience  string            `json:"aud,omitempty"`
-	}
-	additional, err := json.Marshal(
-		additionalData{
+	data, err := json.Marshal(
+		resolveResponseClaims{
 			Issuer:    r.Issuer,
 			Subject:   r.Subject,
 			IssuedAt:  r.IssuedAt,
@@ -73,8 +75,42 @@ func (r ResolveResponse) MarshalJSON() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	additional[0] = ','
-	return extraMarshalHelper(append(payload[:len(payload)-1], additional...), r.Extra)
+	if len(payload) > len("{}") {
+		data[0] = ','
+		data = append(payload[:len(payload)-1], data...)
+	}
+	return extraMarshalHelper(data, r.Extra)
+}
+
+// UnmarshalJSON implements the json.Unmarshaler interface.
+// It also unmarshalls additional fields into the Extra claim.
+func (r *ResolveResponse) UnmarshalJSON(data []byte) error {
+	var claims resolveResponseClaims
+	members, err := unmarshalWithExtra(data, &claims)
+	if err != nil {
+		return err
+	}
+	var payload ResolveResponsePayload
+	if err = json.Unmarshal(data, &payload); err != nil {
+		return err
+	}
+	for name := range payload.Extra {
+		if _, found := members[name]; !found {
+			delete(payload.Extra, name)
+		}
+	}
+	if len(payload.Extra) == 0 {
+		payload.Extra = nil
+	}
+	*r = ResolveResponse{
+		Issuer:                 claims.Issuer,
+		Subject:                claims.Subject,
+		IssuedAt:               claims.IssuedAt,
+		ExpiresAt:              claims.ExpiresAt,
+		Audience:               claims.Audience,
+		ResolveResponsePayload: payload,
+	}
+	return nil
 }
 
 // ResolveResponsePayload holds the actual payload of a resolve response
-- 
2.43.0


From c4c9e87b1b9fe2db8c2f4b149e48ef95ab8fbef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:58 +0000
Subject: [PATCH 33/70] fix: keep additional members of an entity collection
 response

---
 discovery.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/discovery.go b/discovery.go
index 4554f91..21cf3d2 100644
--- a/discovery.go
+++ b/discovery.go
@@ -36,6 +36,30 @@ type EntityCollectionResponse struct {
 	Extra              map[string]any     `json:"-"`
 }
 
+// MarshalJSON implements the json.Marshaler interface
+func (r EntityCollectionResponse) MarshalJSON() ([]byte, error) {
+	type Alias EntityCollectionResponse
+	explicitFields, err := json.Marshal(Alias(r))
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	return extraMarshalHelper(explicitFields, r.Extra)
+}
+
+// UnmarshalJSON implements the json.Unmarshaler interface
+func (r *EntityCollectionResponse) UnmarshalJSON(data []byte) error {
+	type Alias EntityCollectionResponse
+	rr := Alias(*r)
+
+	extra, err := unmarshalWithExtra(data, &rr)
+	if err != nil {
+		return errors.WithStack(err)
+	}
+	rr.Extra = extra
+	*r = EntityCollectionResponse(rr)
+	return nil
+}
+
 // CollectedEntity is a type describing a single collected entity
 type CollectedEntity struct {
 	EntityID    string         `json:"entity_id"`
-- 
2.43.0


From 84310fd4f10ce33f6b25f1f0004d0d59eeab9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 34/70] fix: write trust mark specifications to YAML

---
 entitystatement.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/entitystatement.go b/entitystatement.go
index ce1e838..eee8e8a 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -108,12 +108,12 @@ func extraMarshalHelper(explicitFields []byte, extra map[string]interface{}) ([]
 }
 
 func yamlExtraMarshalHelper(explicitFields []byte, extra map[string]interface{}) (any, error) {
-	var m map[string]*yaml.Node
+	var m map[string]yaml.Node
 	if err := yaml.Unmarshal(explicitFields, &m); err != nil {
 		return nil, err
 	}
 	for k, v := range extra {
-		node := &yaml.Node{}
+		var node yaml.Node
 		if err := node.Encode(v); err != nil {
 			return nil, errors.WithStack(err)
 		}
-- 
2.43.0


From 1419e35d10f3d1aacb3e5cdb43430c8b278fe40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:25 +0000
Subject: [PATCH 35/70] fix: accept signed documents in the compact
 serialization only

---
 internal/jwx/jws.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/jwx/jws.go b/internal/jwx/jws.go
index 580bb27..4712656 100644
--- a/internal/jwx/jws.go
+++ b/internal/jwx/jws.go
@@ -38,9 +38,9 @@ func (p *ParsedJWT) UnmarshalMsgpack(data []byte) error {
 	return nil
 }
 
-// Parse parses a jwt and returns a ParsedJWT
+// Parse parses a jwt and returns a ParsedJWT; only the compact serialization is accepted
 func Parse(data []byte) (*ParsedJWT, error) {
-	m, err := jws.Parse(data)
+	m, err := jws.Parse(data, jws.WithCompact())
 	return &ParsedJWT{
 		RawJWT:  data,
 		Message: m,
-- 
2.43.0


From fe9aee75dca51e950434c512e69b4e6d89b93911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:25 +0000
Subject: [PATCH 36/70] fix: do not verify signatures with published symmetric
 keys

---
 internal/jwx/jws.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/jwx/jws.go b/internal/jwx/jws.go
index 4712656..99f91c1 100644
--- a/internal/jwx/jws.go
+++ b/internal/jwx/jws.go
@@ -55,7 +55,21 @@ func (p *ParsedJWT) VerifyWithSet(keys myjwk.JWKS) ([]byte, error) {
 	if keys.Set == nil || keys.Len() == 0 {
 		return nil, errors.New("jwt verify: no keys passed")
 	}
-	return jws.Verify(p.RawJWT, jws.WithKeySet(keys.Set, jws.WithInferAlgorithmFromKey(true)))
+	return jws.Verify(p.RawJWT, jws.WithKeySet(asymmetricKeys(keys.Set), jws.WithInferAlgorithmFromKey(true)))
+}
+
+// asymmetricKeys returns the keys of the set without the symmetric ones; since published keys are known to everybody,
+// anybody could sign with those
+func asymmetricKeys(keys jwk.Set) jwk.Set {
+	asymmetric := jwk.NewSet()
+	for i := range keys.Len() {
+		key, ok := keys.Key(i)
+		if !ok || key.KeyType() == jwa.OctetSeq() {
+			continue
+		}
+		_ = asymmetric.AddKey(key)
+	}
+	return asymmetric
 }
 
 // VerifyType verifies that the header typ has a certain value
-- 
2.43.0


From 5e55a910f4563059ebe20952bcf32ddcab67386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 37/70] fix: never verify a previously parsed trust mark
 instead of the current one

A TrustMarkInfo keeps the trust mark it parsed. When it was unmarshalled again
or got another JWT assigned, the old mark was still the one verified.
---
 trustmark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index 5714f3d..e3ac1ab 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -108,7 +108,7 @@ func (tm *TrustMarkInfo) UnmarshalJSON(data []byte) error {
 
 // TrustMark returns the TrustMark for this TrustMarkInfo
 func (tm *TrustMarkInfo) TrustMark() (*TrustMark, error) {
-	if tm.trustmark == nil || tm.trustmark.jwtMsg == nil {
+	if tm.trustmark == nil || tm.trustmark.jwtMsg == nil || string(tm.trustmark.jwtMsg.RawJWT) != tm.TrustMarkJWT {
 		t, err := ParseTrustMark([]byte(tm.TrustMarkJWT))
 		if err != nil {
 			return nil, err
-- 
2.43.0


From f1f6b0ca8caceedd7cfec1c59088a0b6d635d990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 38/70] fix: an empty list of trust mark issuers lets anyone
 issue the trust mark

---
 trustmark.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index e3ac1ab..5e471b8 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -261,7 +261,8 @@ func getTrustMarkIssuerJWKS(
 func (tm *TrustMark) VerifyFederation(ta *EntityStatementPayload) error {
 	if ta.TrustMarkIssuers != nil {
 		if tmis, found := ta.TrustMarkIssuers[tm.TrustMarkType]; found {
-			if !slices.Contains(tmis, tm.Issuer) {
+			// an empty list means that anyone may issue trust marks of this type
+			if len(tmis) > 0 && !slices.Contains(tmis, tm.Issuer) {
 				return errors.New("verify trustmark: trust mark issuer is not allowed by trust anchor")
 			}
 		}
-- 
2.43.0


From 06ebb8704a4d0b5fdf835e10fc9881ad16a82e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 39/70] fix: only accept trust marks that were issued to the
 entity presenting them

---
 discovery.go         |  7 +++++--
 metadata_resolver.go |  4 +++-
 trustmark.go         | 16 ++++++++++++++++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/discovery.go b/discovery.go
index 21cf3d2..90381eb 100644
--- a/discovery.go
+++ b/discovery.go
@@ -352,7 +352,8 @@ func (d *SimpleEntityCollector) collect(
 										ta, taErr = GetEntityConfiguration(req.TrustAnchor)
 									},
 								)
-								if taErr != nil || trustMarkInfo.VerifyFederation(&ta.EntityStatementPayload) != nil {
+								if taErr != nil || !trustMarkInfo.isIssuedTo(subordinateID) ||
+									trustMarkInfo.VerifyFederation(&ta.EntityStatementPayload) != nil {
 									includeEntity = false
 									break
 								}
@@ -450,7 +451,9 @@ func (d *SimpleEntityCollector) collect(
 										},
 									)
 									if taErr == nil {
-										collectedEntity.TrustMarks = entityConfig.TrustMarks.VerifiedFederation(&ta.EntityStatementPayload)
+										collectedEntity.TrustMarks = entityConfig.TrustMarks.issuedTo(subordinateID).VerifiedFederation(
+											&ta.EntityStatementPayload,
+										)
 									}
 								}
 
diff --git a/metadata_resolver.go b/metadata_resolver.go
index 6cac3b0..18c8cf3 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -76,7 +76,9 @@ func (r LocalMetadataResolver) ResolveResponsePayload(req apimodel.ResolveReques
 	if err != nil {
 		return
 	}
-	res.TrustMarks = chain[0].TrustMarks.VerifiedFederation(&chain[len(chain)-1].EntityStatementPayload)
+	res.TrustMarks = chain[0].TrustMarks.issuedTo(chain[0].Subject).VerifiedFederation(
+		&chain[len(chain)-1].EntityStatementPayload,
+	)
 	return
 }
 
diff --git a/trustmark.go b/trustmark.go
index 5e471b8..2aa9474 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -28,6 +28,16 @@ func (tms TrustMarkInfos) VerifiedFederation(ta *EntityStatementPayload) (verifi
 	return
 }
 
+// issuedTo returns only those TrustMarkInfos that were issued to the passed entity
+func (tms TrustMarkInfos) issuedTo(entityID string) (issued TrustMarkInfos) {
+	for _, tm := range tms {
+		if tm.isIssuedTo(entityID) {
+			issued = append(issued, tm)
+		}
+	}
+	return
+}
+
 // VerifiedExternal verifies all TrustMarkInfos by using the passed trust mark issuer jwks and optionally the passed
 // trust mark owner jwks and returns only the valid TrustMarkInfos
 func (tms TrustMarkInfos) VerifiedExternal(
@@ -118,6 +128,12 @@ func (tm *TrustMarkInfo) TrustMark() (*TrustMark, error) {
 	return tm.trustmark, nil
 }
 
+// isIssuedTo checks if the trust mark is about the passed entity
+func (tm *TrustMarkInfo) isIssuedTo(entityID string) bool {
+	mark, err := tm.TrustMark()
+	return err == nil && mark.Subject == entityID
+}
+
 // VerifyFederation verifies the TrustMarkInfo by using the passed trust anchor
 func (tm *TrustMarkInfo) VerifyFederation(ta *EntityStatementPayload) error {
 	mark, err := tm.TrustMark()
-- 
2.43.0


From a8364231b1b38b4e5f3519d2566d11863c3e7b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 40/70] fix: do not crash on a trust mark issuer without keys

---
 trustmark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index 2aa9474..c44a2b4 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -265,7 +265,7 @@ func getTrustMarkIssuerJWKS(
 		err = errors.Wrap(err, "error while parsing trust mark issuer entity statement")
 		return
 	}
-	if tmi == nil || tmi.JWKS.Len() == 0 {
+	if tmi == nil || tmi.JWKS.Set == nil || tmi.JWKS.Len() == 0 {
 		err = errors.New("no jwks found for trust mark issuer")
 		return
 	}
-- 
2.43.0


From fefafc91c6ea6d8c95096bcc79250ccb5bd339f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 41/70] fix: honor a requested delegation lifetime when none is
 configured

---
 trustmark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index c44a2b4..41a72f5 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -580,7 +580,7 @@ func (tmo TrustMarkOwner) DelegationJWT(trustMarkType, sub string, lifetime ...t
 	if len(lifetime) > 0 {
 		lf = lifetime[0]
 	}
-	if spec.DelegationLifetime != 0 {
+	if lf != 0 {
 		delegation.ExpiresAt = &unixtime.Unixtime{Time: now.Add(lf)}
 	}
 	return tmo.TrustMarkDelegationSigner.JWT(delegation)
-- 
2.43.0


From 14aaddbd972c4b06cbfa443c1afd729a8faf37a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 42/70] fix: accept a configured trust mark jwt

Parsing always failed, because no verification key was passed. The jwt must be a
trust mark about the entity; self issuance is also set up if a jwt is given.
---
 trustmark_refresher.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index e33741e..35d49aa 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -4,7 +4,6 @@ import (
 	"net/url"
 	"time"
 
-	"github.com/lestrrat-go/jwx/v3/jwt"
 	"github.com/pkg/errors"
 
 	"github.com/go-oidfed/lib/internal"
@@ -45,22 +44,26 @@ func (c *EntityConfigurationTrustMarkConfig) Verify(
 	}
 
 	if c.JWT != "" {
-		parsed, err := jwt.Parse([]byte(c.JWT))
+		parsed, err := ParseTrustMark([]byte(c.JWT))
 		if err != nil {
 			return err
 		}
-		exp, _ := parsed.Expiration()
-		c.expiration = unixtime.Unixtime{Time: exp}
-		c.TrustMarkIssuer, _ = parsed.Issuer()
-		internal.Logf("Extracted trust mark issuer: %s", c.TrustMarkIssuer)
-		err = parsed.Get("trust_mark_type", &c.TrustMarkType)
-		if err != nil {
-			return errors.Wrap(err, "trustmark id not found in JWT")
+		if parsed.TrustMarkType == "" {
+			return errors.New("trustmark id not found in JWT")
+		}
+		if parsed.Subject != sub {
+			return errors.New("trust mark jwt is not about this entity")
+		}
+		if parsed.ExpiresAt != nil {
+			c.expiration = *parsed.ExpiresAt
 		}
+		c.TrustMarkIssuer = parsed.Issuer
+		internal.Logf("Extracted trust mark issuer: %s", c.TrustMarkIssuer)
+		c.TrustMarkType = parsed.TrustMarkType
 		internal.Logf("Extracted trust mark id: %s\n", c.TrustMarkType)
-		return nil
+	} else {
+		c.Refresh = true
 	}
-	c.Refresh = true
 	if c.SelfIssued {
 		c.SelfIssuanceSpec.TrustMarkType = c.TrustMarkType
 		c.ownTrustMarkIssuer = NewTrustMarkIssuer(
-- 
2.43.0


From 95c8c2eb4fb1f8bac5a8ee40580579f31d8baea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 43/70] fix: do not take over wrong or expired trust marks from
 the trust mark endpoint

---
 trustmark_refresher.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index 35d49aa..63acad7 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -147,6 +147,12 @@ func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 	if err != nil {
 		return err
 	}
+	if tm.TrustMarkType != c.TrustMarkType || tm.Subject != c.sub {
+		return errors.New("trust mark endpoint returned a trust mark of another type or for another entity")
+	}
+	if tm.ExpiresAt != nil && !tm.ExpiresAt.After(time.Now()) {
+		return errors.New("trust mark endpoint returned an expired trust mark")
+	}
 	c.JWT = string(tm.jwtMsg.RawJWT)
 	if tm.ExpiresAt != nil {
 		c.expiration = *tm.ExpiresAt
-- 
2.43.0


From cad1fc674d72449ff3b04e2873c6fedcacacbcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 44/70] fix: always publish the current trust mark if it is
 valid

Concurrent publications raced with the refresh and could start several ones. A
trust mark without expiration was refreshed with each publication and dropped in
between, a failing endpoint removed marks in their last seconds, and expired
marks that are not refreshed were published.
---
 trustmark_refresher.go | 75 ++++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 24 deletions(-)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index 63acad7..6b16d4e 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -1,7 +1,9 @@
 package oidfed
 
 import (
+	"math"
 	"net/url"
+	"sync"
 	"time"
 
 	"github.com/pkg/errors"
@@ -27,6 +29,8 @@ type EntityConfigurationTrustMarkConfig struct {
 	sub                  string
 	ownTrustMarkEndpoint string
 	ownTrustMarkIssuer   *TrustMarkIssuer
+	refreshMutex         sync.Mutex   // held while refreshing, protects lastTried
+	mutex                sync.RWMutex // protects JWT and expiration
 }
 
 // Verify verifies that the EntityConfigurationTrustMarkConfig is correct and also extracts trust mark id and issuer
@@ -84,38 +88,66 @@ func (c *EntityConfigurationTrustMarkConfig) Verify(
 // TrustMarkJWT returns a trust mark jwt for the linked trust mark,
 // if needed the trust mark is refreshed using the trust mark issuer's trust mark endpoint
 func (c *EntityConfigurationTrustMarkConfig) TrustMarkJWT() (string, error) {
-	if !c.Refresh {
-		return c.JWT, nil
-	}
-	if c.JWT != "" && unixtime.Until(c.expiration) > c.MinLifetime.Duration {
-		if unixtime.Until(c.expiration) < c.RefreshGracePeriod.Duration {
-			go c.refresh()
+	jwt, remaining := c.current()
+	var err error
+	if c.Refresh {
+		if jwt == "" || remaining <= c.MinLifetime.Duration {
+			c.refreshMutex.Lock()
+			err = c.refresh()
+			c.refreshMutex.Unlock()
+			jwt, remaining = c.current()
+		} else if remaining < c.RefreshGracePeriod.Duration && c.refreshMutex.TryLock() {
+			go func() {
+				defer c.refreshMutex.Unlock()
+				if e := c.refresh(); e != nil {
+					internal.Log(e.Error())
+				}
+			}()
 		}
-		return c.JWT, nil
 	}
-	err := c.refresh()
-	return c.JWT, err
+	if jwt != "" && remaining > 0 {
+		return jwt, nil
+	}
+	if err == nil {
+		err = errors.New("trust mark expired")
+	}
+	return "", err
 }
 
-// refresh refreshes the trust mark at the trust mark issuer's trust mark endpoint
+// current returns the current trust mark jwt and the time until it expires
+func (c *EntityConfigurationTrustMarkConfig) current() (string, time.Duration) {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+	if c.expiration.IsZero() {
+		return c.JWT, math.MaxInt64
+	}
+	return c.JWT, unixtime.Until(c.expiration)
+}
+
+// update sets the current trust mark jwt
+func (c *EntityConfigurationTrustMarkConfig) update(jwt string, expiration *unixtime.Unixtime) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	c.JWT = jwt
+	c.expiration = unixtime.Unixtime{}
+	if expiration != nil {
+		c.expiration = *expiration
+	}
+}
+
+// refresh refreshes the trust mark at the trust mark issuer's trust mark endpoint; the refreshMutex must be held
 func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 	if time.Since(c.lastTried.Time) < time.Minute {
 		// Only try once a minute to obtain a new trust mark
 		return errors.New("only trying to refresh trust mark once a minute")
 	}
-	c.lastTried = unixtime.Now()
+	defer func() { c.lastTried = unixtime.Now() }()
 	if c.SelfIssued {
 		tmi, err := c.ownTrustMarkIssuer.IssueTrustMark(c.TrustMarkType, c.sub)
 		if err != nil {
 			return err
 		}
-		c.JWT = tmi.TrustMarkJWT
-		exp := tmi.trustmark.ExpiresAt
-		if exp != nil {
-			c.expiration = *exp
-		} else {
-			c.expiration = unixtime.Unixtime{}
-		}
+		c.update(tmi.TrustMarkJWT, tmi.trustmark.ExpiresAt)
 		return nil
 	}
 
@@ -153,11 +185,6 @@ func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 	if tm.ExpiresAt != nil && !tm.ExpiresAt.After(time.Now()) {
 		return errors.New("trust mark endpoint returned an expired trust mark")
 	}
-	c.JWT = string(tm.jwtMsg.RawJWT)
-	if tm.ExpiresAt != nil {
-		c.expiration = *tm.ExpiresAt
-	} else {
-		c.expiration = unixtime.Unixtime{}
-	}
+	c.update(string(tm.jwtMsg.RawJWT), tm.ExpiresAt)
 	return nil
 }
-- 
2.43.0


From f413d7e59a765f00042fd38d0ead61b2c7e3a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 45/70] fix: do not race on the visited entities when
 collecting

---
 discovery.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/discovery.go b/discovery.go
index 90381eb..5d87e80 100644
--- a/discovery.go
+++ b/discovery.go
@@ -187,8 +187,23 @@ type EntityCollector interface {
 
 // SimpleEntityCollector is an EntityCollector that collects entities in a
 // federation
-type SimpleEntityCollector struct {
-	visitedEntities *strset.Set
+type SimpleEntityCollector struct{}
+
+// visitedEntities is a set of already visited entities that is safe for concurrent use
+type visitedEntities struct {
+	mutex sync.Mutex
+	ids   *strset.Set
+}
+
+// visit marks an entity as visited and returns false if it already was
+func (v *visitedEntities) visit(entityID string) bool {
+	v.mutex.Lock()
+	defer v.mutex.Unlock()
+	if v.ids.Has(entityID) {
+		return false
+	}
+	v.ids.Add(entityID)
+	return true
 }
 
 // SimpleOPCollector is an EntityCollector that uses the
@@ -242,14 +257,14 @@ type FilterableVerifiedChainsEntityCollector struct {
 
 // CollectEntities implements the EntityCollector interface
 func (d *SimpleEntityCollector) CollectEntities(req apimodel.EntityCollectionRequest) (entities []*CollectedEntity) {
-	d.visitedEntities = strset.New()
-	return d.collect(req, NewTrustAnchorsFromEntityIDs(req.TrustAnchor)...)
+	visited := &visitedEntities{ids: strset.New()}
+	return d.collect(req, visited, NewTrustAnchorsFromEntityIDs(req.TrustAnchor)...)
 }
 
 const maxCollectWorkers = 128
 
 func (d *SimpleEntityCollector) collect(
-	req apimodel.EntityCollectionRequest, authorities ...TrustAnchor,
+	req apimodel.EntityCollectionRequest, visited *visitedEntities, authorities ...TrustAnchor,
 ) (entities []*CollectedEntity) {
 	internal.Logf("Discovering Entities for authorities: %+q", authorities)
 
@@ -293,11 +308,10 @@ func (d *SimpleEntityCollector) collect(
 	for _, authority := range authorities {
 		run(
 			func() {
-				if d.visitedEntities.Has(authority.EntityID) {
+				if !visited.visit(authority.EntityID) {
 					internal.Logf("Already visited: %s -> skipping", authority.EntityID)
 					return
 				}
-				d.visitedEntities.Add(authority.EntityID)
 
 				stmt, err := GetEntityConfiguration(authority.EntityID)
 				if err != nil {
@@ -462,7 +476,7 @@ func (d *SimpleEntityCollector) collect(
 
 							if entityConfig.Metadata.FederationEntity != nil &&
 								entityConfig.Metadata.FederationEntity.FederationListEndpoint != "" {
-								nested := d.collect(req, NewTrustAnchorsFromEntityIDs(subordinateID)...)
+								nested := d.collect(req, visited, NewTrustAnchorsFromEntityIDs(subordinateID)...)
 								for _, nestedEntity := range nested {
 									entityChan <- nestedEntity
 								}
-- 
2.43.0


From ad0aa920ce6f40c0596c481cccb5438fa70c3d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 46/70] fix: set the ui info fields of collected entities

---
 discovery.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/discovery.go b/discovery.go
index 5d87e80..4192145 100644
--- a/discovery.go
+++ b/discovery.go
@@ -99,10 +99,7 @@ func (e *CollectedEntity) setUIInfoField(
 	for i := 0; i < uiInfoType.NumField(); i++ {
 		structField := uiInfoType.Field(i)
 		tag := structField.Tag.Get("json")
-		tagName := tag
-		if commaIdx := len(tag); commaIdx != -1 {
-			tagName = tag[:commaIdx]
-		}
+		tagName, _, _ := strings.Cut(tag, ",")
 
 		if tagName == jsonTag {
 			fieldValue := uiInfoValue.Field(i)
-- 
2.43.0


From b54e5d5f658b590bcb963933b553a5a8629094ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 47/70] fix: collect keywords of entities

---
 metadata.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metadata.go b/metadata.go
index 7d5ddb8..e38cb3f 100644
--- a/metadata.go
+++ b/metadata.go
@@ -142,9 +142,8 @@ func (m Metadata) IterateStringSliceClaim(tag string, iterator func(entityType s
 				jsonTag := subStructField.Tag.Get("json")
 				jsonTag = strings.TrimSuffix(jsonTag, ",omitempty")
 
-				if jsonTag == tag && subField.Kind() == reflect.String {
-					slice := subField.Interface().([]string)
-					if slice != nil {
+				if jsonTag == tag {
+					if slice, ok := subField.Interface().([]string); ok && slice != nil {
 						iterator(entityTag, slice)
 					}
 					break
-- 
2.43.0


From a370b67371435ed79f6061794af02390c79f2299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 48/70] fix: consider all trust marks of a type when filtering
 collected entities

---
 discovery.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/discovery.go b/discovery.go
index 4192145..70dc0db 100644
--- a/discovery.go
+++ b/discovery.go
@@ -353,18 +353,17 @@ func (d *SimpleEntityCollector) collect(
 							}
 
 							for _, trustMarkType := range req.TrustMarkTypes {
-								trustMarkInfo := entityConfig.TrustMarks.FindByID(trustMarkType)
-								if trustMarkInfo == nil {
-									includeEntity = false
-									break
-								}
 								taOnce.Do(
 									func() {
 										ta, taErr = GetEntityConfiguration(req.TrustAnchor)
 									},
 								)
-								if taErr != nil || !trustMarkInfo.isIssuedTo(subordinateID) ||
-									trustMarkInfo.VerifyFederation(&ta.EntityStatementPayload) != nil {
+								if taErr != nil || entityConfig.TrustMarks.issuedTo(subordinateID).Find(
+									func(info TrustMarkInfo) bool {
+										return info.TrustMarkType == trustMarkType &&
+											info.VerifyFederation(&ta.EntityStatementPayload) == nil
+									},
+								) == nil {
 									includeEntity = false
 									break
 								}
-- 
2.43.0


From a81638eb7e36cf6d18e7c87fc1db0ae57730bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 49/70] fix: treat unsuccessful http responses without an error
 document as errors

---
 internal/http/http.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/http/http.go b/internal/http/http.go
index 8d3c404..daa2fa8 100644
--- a/internal/http/http.go
+++ b/internal/http/http.go
@@ -42,14 +42,26 @@ func Do() *resty.Client {
 	return client
 }
 
+// errorResponse returns the HttpError of an unsuccessful response, whether or not the server sent an error document
+func errorResponse(resp *resty.Response) *HttpError {
+	if resp.IsSuccess() {
+		return nil
+	}
+	errRes, ok := resp.Error().(*HttpError)
+	if !ok || errRes == nil {
+		errRes = &HttpError{}
+	}
+	errRes.Status = resp.StatusCode()
+	return errRes
+}
+
 // Get performs a http GET request and parses the response into the given interface{}
 func Get(url string, params url.Values, res interface{}) (*resty.Response, *HttpError, error) {
 	resp, err := client.R().SetQueryParamsFromValues(params).SetError(&HttpError{}).SetResult(res).Get(url)
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
-	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != "" {
-		errRes.Status = resp.RawResponse.StatusCode
+	if errRes := errorResponse(resp); errRes != nil {
 		return nil, errRes, nil
 	}
 	return resp, nil, nil
@@ -61,8 +73,7 @@ func Post(url string, req interface{}, res interface{}) (*resty.Response, *HttpE
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
-	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != "" {
-		errRes.Status = resp.RawResponse.StatusCode
+	if errRes := errorResponse(resp); errRes != nil {
 		return nil, errRes, nil
 	}
 	return resp, nil, nil
-- 
2.43.0


From b6ee31f41411b089d447e9c7ed0d18df2541197a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 50/70] fix: do not take an unreadable subordinate listing for
 an empty one

---
 discovery.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discovery.go b/discovery.go
index 70dc0db..241e46f 100644
--- a/discovery.go
+++ b/discovery.go
@@ -615,18 +615,18 @@ func fetchList(listEndpoint string) ([]string, error) {
 }
 
 func httpFetchList(listEndpoint string) ([]string, error) {
-	resp, errRes, err := http.Get(listEndpoint, nil, &[]string{})
+	resp, errRes, err := http.Get(listEndpoint, nil, nil)
 	if err != nil {
 		return nil, err
 	}
 	if errRes != nil {
 		return nil, errRes.Err()
 	}
-	entities, ok := resp.Result().(*[]string)
-	if !ok || entities == nil {
-		return nil, errors.New("unexpected response type")
+	var entities []string
+	if err = json.Unmarshal(resp.Body(), &entities); err != nil {
+		return nil, errors.WithStack(err)
 	}
-	return *entities, nil
+	return entities, nil
 }
 
 func getMetadataForCollectedEntity(e *CollectedEntity, trustAnchors []string) *Metadata {
-- 
2.43.0


From 6225c6d5070359dc98ba0d5ddfc254791fd479a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 51/70] fix: pass the name query on to remote entity collection
 endpoints

---
 apimodel/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apimodel/collection.go b/apimodel/collection.go
index 40614c6..73b6d93 100644
--- a/apimodel/collection.go
+++ b/apimodel/collection.go
@@ -7,6 +7,6 @@ type EntityCollectionRequest struct {
 	TrustMarkTypes []string `json:"trust_mark_type" form:"trust_mark_type" query:"trust_mark_type" url:"trust_mark_type"`
 	TrustAnchor    string   `json:"trust_anchor" form:"trust_anchor" query:"trust_anchor" url:"trust_anchor"`
 	EntityTypes    []string `json:"entity_type" form:"entity_type" query:"entity_type" url:"entity_type"`
-	NameQuery      string   `json:"name_query" form:"name_query" query:"name_query"`
+	NameQuery      string   `json:"name_query" form:"name_query" query:"name_query" url:"name_query"`
 	Claims         []string `json:"claims" form:"claims" query:"claims" url:"claims"`
 }
-- 
2.43.0


From 6e3bb29019668d4dfdf4bce8ca2b4ed3601926f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 52/70] fix: never hand out entity statements that are invalid
 or about someone else

---
 trustresolver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 2359d2b..fdb8f04 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/pkg/errors"
 	"github.com/scylladb/go-set/strset"
 	"github.com/vmihailenco/msgpack/v5"
 	"golang.org/x/crypto/sha3"
@@ -651,9 +652,8 @@ func obtainAndSetEntityStatementOrConfiguration(
 	}
 	internal.Log("Obtained entity statement from http")
 	if stmt.Issuer != issID || stmt.Subject != subID || !stmt.TimeValid() {
-		// must not replace a valid statement
-		internal.Logf("Not caching invalid entity statement about %+q issued by %+q", subID, issID)
-		return stmt, nil
+		// must not be used and must not replace a valid statement
+		return nil, errors.Errorf("invalid entity statement about %+q issued by %+q", subID, issID)
 	}
 	entityStmtCacheSet(subID, issID, stmt)
 	return stmt, nil
-- 
2.43.0


From 0115ce77de75685d0c6b08f7a52a7b2e907626b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 53/70] fix: do not panic on ed25519 keys of the wrong length

---
 internal/jwx/jws.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/jwx/jws.go b/internal/jwx/jws.go
index 99f91c1..89b6208 100644
--- a/internal/jwx/jws.go
+++ b/internal/jwx/jws.go
@@ -2,6 +2,7 @@ package jwx
 
 import (
 	"crypto"
+	"crypto/ed25519"
 
 	"github.com/lestrrat-go/jwx/v3/jwa"
 	"github.com/lestrrat-go/jwx/v3/jwk"
@@ -64,7 +65,7 @@ func asymmetricKeys(keys jwk.Set) jwk.Set {
 	asymmetric := jwk.NewSet()
 	for i := range keys.Len() {
 		key, ok := keys.Key(i)
-		if !ok || key.KeyType() == jwa.OctetSeq() {
+		if !ok || key.KeyType() == jwa.OctetSeq() || !usable(key) {
 			continue
 		}
 		_ = asymmetric.AddKey(key)
@@ -72,6 +73,20 @@ func asymmetricKeys(keys jwk.Set) jwk.Set {
 	return asymmetric
 }
 
+// usable checks that a key can be used for verification; verifying with an ed25519 key of the wrong length would panic
+func usable(key jwk.Key) bool {
+	public, err := jwk.PublicKeyOf(key)
+	if err != nil {
+		return false
+	}
+	var raw any
+	if err = jwk.Export(public, &raw); err != nil {
+		return false
+	}
+	ed, isEd25519 := raw.(ed25519.PublicKey)
+	return !isEd25519 || len(ed) == ed25519.PublicKeySize
+}
+
 // VerifyType verifies that the header typ has a certain value
 func (p *ParsedJWT) VerifyType(typ string) bool {
 	if p.Signatures() == nil {
-- 
2.43.0


From 82de586aaff98a9e7c134a577d85f7354977e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 54/70] fix: report an error if an issuer has no OP metadata
 instead of crashing

---
 federation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/federation.go b/federation.go
index bddd1d7..a8423b0 100644
--- a/federation.go
+++ b/federation.go
@@ -146,5 +146,8 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	if err != nil {
 		return nil, errors.Wrap(err, "no trust chain with valid metadata found")
 	}
+	if metadata == nil || metadata.OpenIDProvider == nil {
+		return nil, errors.Errorf("%+q has no openid_provider metadata", issuer)
+	}
 	return metadata.OpenIDProvider, nil
 }
-- 
2.43.0


From dd9f66d5afa969c6cba685d36ad93e5db9757b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 55/70] fix: ignore null entities in remote entity collections

---
 discovery.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/discovery.go b/discovery.go
index 241e46f..5dcb293 100644
--- a/discovery.go
+++ b/discovery.go
@@ -787,7 +787,12 @@ func (c SimpleRemoteEntityCollector) CollectEntities(req apimodel.EntityCollecti
 		internal.Logf("error while fetching entity collection endpoint: %s", errRes.Err().Error())
 		return nil
 	}
-	return res.FederationEntities
+	// null is not an entity
+	return slices.DeleteFunc(
+		res.FederationEntities, func(e *CollectedEntity) bool {
+			return e == nil
+		},
+	)
 }
 
 // SmartRemoteEntityCollector is a EntityCollector that utilizes remote
-- 
2.43.0


From 3a9be768182b309d3f203b3c79d515c0e5bc15e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 56/70] fix: a failing remote resolver does not confirm that
 resolving is impossible

---
 metadata_resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata_resolver.go b/metadata_resolver.go
index 18c8cf3..a66358c 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -170,7 +170,7 @@ func (r SimpleRemoteMetadataResolver) ResolvePossible(req apimodel.ResolveReques
 	_, resStatus, err := r.ResolveResponse(req)
 	if err != nil {
 		internal.Log(err.Error())
-		return false, true
+		return false, false
 	}
 	switch resStatus {
 	case resolveStatusValid, resolveStatusOnlyValidTrustChain:
-- 
2.43.0


From f19ffc8dd1f26e429ebd24481e203324226afd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 57/70] fix: refuse resolve responses that are expired or about
 another entity

---
 metadata_resolver.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/metadata_resolver.go b/metadata_resolver.go
index a66358c..0647922 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -11,6 +11,7 @@ import (
 	"github.com/go-oidfed/lib/internal/http"
 	"github.com/go-oidfed/lib/internal/jwx"
 	"github.com/go-oidfed/lib/oidfedconst"
+	"github.com/go-oidfed/lib/unixtime"
 )
 
 // MetadataResolver is type for resolving the metadata from a StartingEntity to
@@ -134,9 +135,17 @@ func (r SimpleRemoteMetadataResolver) ResolveResponse(req apimodel.ResolveReques
 		}
 		return nil, resolveStatus, nil
 	}
-	resolveStatus = resolveStatusValid
 	rres, err := ParseResolveResponse(res.Body())
-	return rres, resolveStatus, err
+	if err != nil {
+		return nil, resolveStatus, err
+	}
+	if rres.Subject != req.Subject {
+		return nil, resolveStatus, errors.Errorf("resolve response is about %+q", rres.Subject)
+	}
+	if err = unixtime.VerifyTime(nil, &rres.ExpiresAt); err != nil {
+		return nil, resolveStatus, errors.Wrap(err, "resolve response")
+	}
+	return rres, resolveStatusValid, nil
 }
 
 // Resolve implements the MetadataResolver interface
-- 
2.43.0


From 04df63ed153c177677b3955a75e4db3c1016acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 58/70] fix: do not change the caller's values when creating a
 request object

---
 authcode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/authcode.go b/authcode.go
index 85eb3db..fd6d618 100644
--- a/authcode.go
+++ b/authcode.go
@@ -4,6 +4,7 @@ import (
 	"crypto"
 	"encoding/json"
 	"io"
+	"maps"
 	"net/http"
 	"net/url"
 	"time"
@@ -74,6 +75,7 @@ func (rop RequestObjectProducer) RequestObject(requestValues map[string]any) ([]
 	if _, audFound := requestValues["aud"]; !audFound {
 		return nil, errors.New("request must contain 'aud' claim with OPs issuer identifier url")
 	}
+	requestValues = maps.Clone(requestValues) // the caller might use the values for another request
 	requestValues["iss"] = rop.EntityID
 	requestValues["client_id"] = rop.EntityID
 	delete(requestValues, "sub")
-- 
2.43.0


From 3c3e987582bc80b88ad390d0e48dc58a295f19ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 59/70] fix: do not change the caller's parameters in a code
 exchange

---
 authcode.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/authcode.go b/authcode.go
index fd6d618..bcc3378 100644
--- a/authcode.go
+++ b/authcode.go
@@ -172,10 +172,8 @@ func (f FederationLeaf) CodeExchange(
 	if err != nil {
 		return nil, nil, err
 	}
-	params := additionalParameter
-	if params == nil {
-		params = url.Values{}
-	}
+	params := url.Values{}
+	maps.Copy(params, additionalParameter)
 	params.Set("grant_type", "authorization_code")
 	params.Set("code", code)
 	params.Set("redirect_uri", redirectURI)
-- 
2.43.0


From 3724d7ac587a2aa4602ea7bc89511b7ed5237986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 60/70] fix: keep the query of the authorization endpoint

---
 authcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authcode.go b/authcode.go
index bcc3378..e37b18b 100644
--- a/authcode.go
+++ b/authcode.go
@@ -153,7 +153,7 @@ func (f FederationLeaf) GetAuthorizationURL(
 	if err != nil {
 		return "", errors.WithStack(err)
 	}
-	q := url.Values{}
+	q := u.Query()
 	q.Set("request", string(requestObject))
 	q.Set("client_id", f.EntityID)
 	q.Set("response_type", "code")
-- 
2.43.0


From 0b1d3048117ca60f0d216d03e3f04aba6686f4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 61/70] fix: do not take an unsuccessful answer of the token
 endpoint for a token response

---
 authcode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/authcode.go b/authcode.go
index e37b18b..67c77af 100644
--- a/authcode.go
+++ b/authcode.go
@@ -190,6 +190,7 @@ func (f FederationLeaf) CodeExchange(
 	if err != nil {
 		return nil, nil, err
 	}
+	defer res.Body.Close()
 
 	body, err := io.ReadAll(res.Body)
 	if err != nil {
@@ -203,6 +204,9 @@ func (f FederationLeaf) CodeExchange(
 	if errRes.Error != "" {
 		return nil, &errRes, nil
 	}
+	if res.StatusCode < 200 || res.StatusCode > 299 {
+		return nil, nil, errors.Errorf("token endpoint responded with status %d", res.StatusCode)
+	}
 	if err = json.Unmarshal(body, &tokenRes); err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From ba1b070e188d9a9e50d2d07876db9213074eddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 62/70] fix: refuse OP metadata with the issuer of another OP

---
 federation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/federation.go b/federation.go
index a8423b0..9baff55 100644
--- a/federation.go
+++ b/federation.go
@@ -149,5 +149,10 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	if metadata == nil || metadata.OpenIDProvider == nil {
 		return nil, errors.Errorf("%+q has no openid_provider metadata", issuer)
 	}
+	if metadata.OpenIDProvider.Issuer != issuer {
+		return nil, errors.Errorf(
+			"the metadata of %+q is for another issuer: %+q", issuer, metadata.OpenIDProvider.Issuer,
+		)
+	}
 	return metadata.OpenIDProvider, nil
 }
-- 
2.43.0


From 6616b80803d60705542f4d29e70007026ac2620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 63/70] fix: resolve OP metadata when the cache fails

---
 federation.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/federation.go b/federation.go
index 9baff55..b5411ef 100644
--- a/federation.go
+++ b/federation.go
@@ -131,9 +131,8 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	var opm OpenIDProviderMetadata
 	set, err := cache.Get(cache.Key(cache.KeyOPMetadata, issuer), &opm)
 	if err != nil {
-		return nil, err
-	}
-	if set {
+		internal.Logf("error while obtaining op metadata from cache: %s", err)
+	} else if set {
 		return &opm, nil
 	}
 	metadata, err := DefaultMetadataResolver.Resolve(
-- 
2.43.0


From 834af40d0323ae3bc6f6ad87b8503bd5e57bb524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:05 +0000
Subject: [PATCH 64/70] fix: do not race on entries of the in-memory cache

---
 cache/cache.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index d6e6923..85ded55 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -3,6 +3,7 @@ package cache
 import (
 	"encoding/base64"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/TwiN/gocache/v2"
@@ -21,7 +22,8 @@ type Cache interface {
 // cacheWrapper is a type implementing the Cache interface and providing an
 // internal cache
 type cacheWrapper struct {
-	c *gocache.Cache
+	c     *gocache.Cache
+	mutex *sync.RWMutex // gocache reads the value of an entry without holding its own lock
 }
 
 func newCacheWrapper(defaultExpiration time.Duration) cacheWrapper {
@@ -30,13 +32,16 @@ func newCacheWrapper(defaultExpiration time.Duration) cacheWrapper {
 		log.Fatal(err) // skipcq: RVV-A0003
 	}
 	return cacheWrapper{
-		c,
+		c:     c,
+		mutex: &sync.RWMutex{},
 	}
 }
 
 // Get implements the Cache interface
 func (c cacheWrapper) Get(key string, target any) (bool, error) {
+	c.mutex.RLock()
 	entryV, ok := c.c.Get(key)
+	c.mutex.RUnlock()
 	if !ok {
 		return false, nil
 	}
@@ -52,6 +57,8 @@ func (c cacheWrapper) Get(key string, target any) (bool, error) {
 func (c cacheWrapper) Set(key string, value any, expiration time.Duration) error {
 	if expiration <= 0 {
 		// already expired; gocache would keep it forever if it is -1ns
+		c.mutex.Lock()
+		defer c.mutex.Unlock()
 		c.c.Delete(key)
 		return nil
 	}
@@ -59,6 +66,8 @@ func (c cacheWrapper) Set(key string, value any, expiration time.Duration) error
 	if err != nil {
 		return err
 	}
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	c.c.SetWithTTL(key, data, expiration)
 	return nil
 }
-- 
2.43.0


From 3867354f30621d95fab63e2479308d9f15701124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:52 +0000
Subject: [PATCH 65/70] fix: do not race on trust marks that are verified
 concurrently

---
 trustmark.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/trustmark.go b/trustmark.go
index 41a72f5..9cf859c 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -118,14 +118,11 @@ func (tm *TrustMarkInfo) UnmarshalJSON(data []byte) error {
 
 // TrustMark returns the TrustMark for this TrustMarkInfo
 func (tm *TrustMarkInfo) TrustMark() (*TrustMark, error) {
-	if tm.trustmark == nil || tm.trustmark.jwtMsg == nil || string(tm.trustmark.jwtMsg.RawJWT) != tm.TrustMarkJWT {
-		t, err := ParseTrustMark([]byte(tm.TrustMarkJWT))
-		if err != nil {
-			return nil, err
-		}
-		tm.trustmark = t
+	if tm.trustmark != nil && tm.trustmark.jwtMsg != nil && string(tm.trustmark.jwtMsg.RawJWT) == tm.TrustMarkJWT {
+		return tm.trustmark, nil
 	}
-	return tm.trustmark, nil
+	// not stored, since others might use the TrustMarkInfo concurrently
+	return ParseTrustMark([]byte(tm.TrustMarkJWT))
 }
 
 // isIssuedTo checks if the trust mark is about the passed entity
@@ -174,7 +171,6 @@ type TrustMark struct {
 	DelegationJWT string                 `json:"delegation,omitempty"`
 	Extra         map[string]interface{} `json:"-"`
 	jwtMsg        *jwx.ParsedJWT
-	delegation    *DelegationJWT
 }
 
 // MarshalJSON implements the json.Marshaler interface.
@@ -221,14 +217,10 @@ func parseDelegationJWT(delegationJWT []byte) (*DelegationJWT, error) {
 
 // Delegation returns the DelegationJWT (if any) for this TrustMark
 func (tm *TrustMark) Delegation() (*DelegationJWT, error) {
-	var err error
-	if tm.delegation == nil {
-		if tm.DelegationJWT == "" {
-			return nil, nil
-		}
-		tm.delegation, err = parseDelegationJWT([]byte(tm.DelegationJWT))
+	if tm.DelegationJWT == "" {
+		return nil, nil
 	}
-	return tm.delegation, err
+	return parseDelegationJWT([]byte(tm.DelegationJWT))
 }
 
 func getTrustMarkIssuerJWKS(
-- 
2.43.0


From 4dd73264d321db480d1f6e0ae7aaa11938ada244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 66/70] fix: fill in the metadata looked up for a known entity
 type

---
 metadata.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metadata.go b/metadata.go
index e38cb3f..d81d426 100644
--- a/metadata.go
+++ b/metadata.go
@@ -421,8 +421,11 @@ func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
 			continue
 		}
 
-		metadata = value.Interface()
-		return nil
+		jsonMetadata, err := json.Marshal(value.Interface())
+		if err != nil {
+			return errors.Errorf("failed to marshal metadata: %s", err)
+		}
+		return json.Unmarshal(jsonMetadata, metadata)
 	}
 
 	// Requested entity type was not a struct field, so find it in the extra metadata.
-- 
2.43.0


From 5621276a6c07671b4bf77861a8cbf67096757878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:13 +0000
Subject: [PATCH 67/70] fix: compare host names in naming constraints without
 regard to case

Host names are case-insensitive, so that a subordinate could evade an excluded
name by writing its identifier in upper case.
---
 trustresolver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trustresolver.go b/trustresolver.go
index fdb8f04..5bff141 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -510,7 +510,9 @@ func matchNamingConstraint(constraint, id string) bool {
 	if err != nil {
 		return false
 	}
-	host := u.Hostname()
+	// host names are case-insensitive
+	host := strings.ToLower(u.Hostname())
+	constraint = strings.ToLower(constraint)
 	if strings.HasPrefix(constraint, ".") {
 		return strings.HasSuffix(host, constraint)
 	}
-- 
2.43.0


From fc3f4322fdb82482258dde7e9594e34dc8432aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:20 +0000
Subject: [PATCH 68/70] fix: leave the list of operators a policy operator may
 be combined with alone

Appending to it could overwrite the list of another operator that shares its array.
---
 metadataPolicy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index 74a41f4..a5b3015 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -250,7 +250,9 @@ func (p MetadataPolicyEntry) Verify(pathInfo string) error {
 		if mayCombine == nil {
 			continue
 		}
-		notAllowed := slices.Subtract(activeOperators, append(mayCombine, op.Name()))
+		// the operator's own list must not be appended to: it might share its array with another one
+		allowed := append([]PolicyOperatorName{op.Name()}, mayCombine...)
+		notAllowed := slices.Subtract(activeOperators, allowed)
 		if len(notAllowed) > 0 {
 			return errors.Errorf(
 				"policy operator '%s' in '%s' cannot be combined with these operators: %v", opN,
-- 
2.43.0


From 312a07cf829b1983fdf0fce3f3dd2039b0652912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:30 +0000
Subject: [PATCH 69/70] fix: resolve with the keys that are set for trust
 anchors

---
 discovery.go         |  7 +------
 federation.go        |  9 +-------
 metadata_resolver.go | 50 ++++++++++++++++++++++++++++++++++++++++----
 3 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/discovery.go b/discovery.go
index 5dcb293..c5d5a75 100644
--- a/discovery.go
+++ b/discovery.go
@@ -591,12 +591,7 @@ type EntityCollectionFilterVerifiedChains struct {
 
 // Filter implements the EntityCollectionFilter interface
 func (f EntityCollectionFilterVerifiedChains) Filter(e *CollectedEntity) bool {
-	confirmedValid, _ := DefaultMetadataResolver.ResolvePossible(
-		apimodel.ResolveRequest{
-			Subject:     e.EntityID,
-			TrustAnchor: f.TrustAnchors.EntityIDs(),
-		},
-	)
+	confirmedValid, _ := f.TrustAnchors.resolvePossible(e.EntityID)
 	return confirmedValid
 }
 
diff --git a/federation.go b/federation.go
index b5411ef..9274e0b 100644
--- a/federation.go
+++ b/federation.go
@@ -7,7 +7,6 @@ import (
 	"github.com/lestrrat-go/jwx/v3/jwa"
 	"github.com/pkg/errors"
 
-	"github.com/go-oidfed/lib/apimodel"
 	"github.com/go-oidfed/lib/cache"
 	"github.com/go-oidfed/lib/internal"
 	"github.com/go-oidfed/lib/jwks"
@@ -135,13 +134,7 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	} else if set {
 		return &opm, nil
 	}
-	metadata, err := DefaultMetadataResolver.Resolve(
-		apimodel.ResolveRequest{
-			Subject:     issuer,
-			TrustAnchor: f.TrustAnchors.EntityIDs(),
-			EntityTypes: []string{"openid_provider"},
-		},
-	)
+	metadata, err := f.TrustAnchors.resolve(issuer, "openid_provider")
 	if err != nil {
 		return nil, errors.Wrap(err, "no trust chain with valid metadata found")
 	}
diff --git a/metadata_resolver.go b/metadata_resolver.go
index 0647922..e90eb86 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -40,13 +40,21 @@ func (r LocalMetadataResolver) Resolve(req apimodel.ResolveRequest) (*Metadata,
 	return res.Metadata, nil
 }
 
-func (LocalMetadataResolver) resolveResponsePayloadWithoutTrustMarks(
+func (r LocalMetadataResolver) resolveResponsePayloadWithoutTrustMarks(
 	req apimodel.ResolveRequest,
 ) (
 	res ResolveResponsePayload, chain TrustChain, err error,
+) {
+	return r.resolveToTrustAnchors(req, NewTrustAnchorsFromEntityIDs(req.TrustAnchor...))
+}
+
+func (LocalMetadataResolver) resolveToTrustAnchors(
+	req apimodel.ResolveRequest, trustAnchors TrustAnchors,
+) (
+	res ResolveResponsePayload, chain TrustChain, err error,
 ) {
 	tr := TrustResolver{
-		TrustAnchors:   NewTrustAnchorsFromEntityIDs(req.TrustAnchor...),
+		TrustAnchors:   trustAnchors,
 		StartingEntity: req.Subject,
 		Types:          req.EntityTypes,
 	}
@@ -84,9 +92,13 @@ func (r LocalMetadataResolver) ResolveResponsePayload(req apimodel.ResolveReques
 }
 
 // ResolvePossible implements the MetadataResolver interface
-func (LocalMetadataResolver) ResolvePossible(req apimodel.ResolveRequest) (bool, bool) {
+func (r LocalMetadataResolver) ResolvePossible(req apimodel.ResolveRequest) (bool, bool) {
+	return r.resolvePossible(req, NewTrustAnchorsFromEntityIDs(req.TrustAnchor...))
+}
+
+func (LocalMetadataResolver) resolvePossible(req apimodel.ResolveRequest, trustAnchors TrustAnchors) (bool, bool) {
 	tr := TrustResolver{
-		TrustAnchors:   NewTrustAnchorsFromEntityIDs(req.TrustAnchor...),
+		TrustAnchors:   trustAnchors,
 		StartingEntity: req.Subject,
 		Types:          req.EntityTypes,
 	}
@@ -95,6 +107,36 @@ func (LocalMetadataResolver) ResolvePossible(req apimodel.ResolveRequest) (bool,
 	return valid, !valid
 }
 
+// resolve resolves metadata to these TrustAnchors with the DefaultMetadataResolver; local resolution uses the keys that are
+// set for them
+func (anchors TrustAnchors) resolve(subject string, entityTypes ...string) (*Metadata, error) {
+	req := apimodel.ResolveRequest{
+		Subject:     subject,
+		TrustAnchor: anchors.EntityIDs(),
+		EntityTypes: entityTypes,
+	}
+	local, ok := DefaultMetadataResolver.(LocalMetadataResolver)
+	if !ok {
+		return DefaultMetadataResolver.Resolve(req)
+	}
+	res, _, err := local.resolveToTrustAnchors(req, anchors)
+	return res.Metadata, err
+}
+
+// resolvePossible checks with the DefaultMetadataResolver if resolving to these TrustAnchors is possible; local resolution
+// uses the keys that are set for them
+func (anchors TrustAnchors) resolvePossible(subject string) (bool, bool) {
+	req := apimodel.ResolveRequest{
+		Subject:     subject,
+		TrustAnchor: anchors.EntityIDs(),
+	}
+	local, ok := DefaultMetadataResolver.(LocalMetadataResolver)
+	if !ok {
+		return DefaultMetadataResolver.ResolvePossible(req)
+	}
+	return local.resolvePossible(req, anchors)
+}
+
 // SimpleRemoteMetadataResolver is a MetadataResolver that utilizes a given
 // ResolveEndpoint
 type SimpleRemoteMetadataResolver struct {
-- 
2.43.0


From 5ad38de66c0b96554318884385daeaa4652ebf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:29 +0000
Subject: [PATCH 70/70] fix: verify trust marks with the keys of the trust
 anchor that is passed

---
 trustmark.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index 9cf859c..ba7481c 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -239,7 +239,15 @@ func getTrustMarkIssuerJWKS(
 	var res ResolveResponsePayload
 	switch resolver := DefaultMetadataResolver.(type) {
 	case LocalMetadataResolver:
-		res, _, err = resolver.resolveResponsePayloadWithoutTrustMarks(resolveRequest)
+		// the trust anchor is the one that was passed, not just any that is found under its entity id
+		res, _, err = resolver.resolveToTrustAnchors(
+			resolveRequest, TrustAnchors{
+				{
+					EntityID: ta.Subject,
+					JWKS:     ta.JWKS,
+				},
+			},
+		)
 	default:
 		res, err = DefaultMetadataResolver.ResolveResponsePayload(resolveRequest)
 	}
-- 
2.43.0

