From 30572e16267e424683aafe0ae8be42ee846cc58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 01/53] fix: check identity and validity of the starting
 entity's configuration and tolerate missing metadata

---
 trustresolver.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 5523cde..e8276e4 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -212,12 +212,19 @@ func (r *TrustResolver) Resolve() {
 	if err != nil {
 		return
 	}
-	if len(r.Types) > 0 {
-		utils.NilAllExceptByTag(starting.Metadata, r.Types)
+	if !utils.Equal(starting.Issuer, starting.Subject, r.StartingEntity) || !starting.TimeValid() {
+		return
+	}
+	entityTypes := strset.New()
+	if starting.Metadata != nil {
+		if len(r.Types) > 0 {
+			utils.NilAllExceptByTag(starting.Metadata, r.Types)
+		}
+		entityTypes.Add(starting.Metadata.GuessEntityTypes()...)
 	}
 	r.trustTree = trustTree{
 		Entity:              starting,
-		includedEntityTypes: strset.New(starting.Metadata.GuessEntityTypes()...),
+		includedEntityTypes: entityTypes,
 		subordinateIDs:      strset.New(starting.Subject),
 	}
 	r.trustTree.resolve(r.TrustAnchors)
-- 
2.43.0


From 31a773ee5672df0a748ed6f9628336c4dd78d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 02/53] fix: do not return an unverified chain for an entity
 without a path to a trust anchor

---
 trustresolver.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/trustresolver.go b/trustresolver.go
index e8276e4..ac4bf0d 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -456,6 +456,19 @@ func (t *trustTree) verifySignatures(anchors TrustAnchors) bool {
 			}
 		}
 	}
+	if t.Subordinate == nil && t.Entity != nil {
+		for _, ta := range anchors {
+			if utils.Equal(ta.EntityID, t.Entity.Issuer, t.Entity.Subject) {
+				// the starting entity is a TA itself
+				jwks := ta.JWKS
+				if jwks.Set == nil {
+					jwks = t.Entity.JWKS
+				}
+				t.signaturesVerified = t.Entity.Verify(jwks)
+				return t.signaturesVerified
+			}
+		}
+	}
 	iValid := 0
 	for _, tt := range t.Authorities {
 		if !tt.verifySignatures(anchors) {
@@ -480,7 +493,7 @@ func (t *trustTree) verifySignatures(anchors TrustAnchors) bool {
 func (t trustTree) chains() (chains []TrustChain) {
 	if t.Authorities == nil {
 		if t.Subordinate == nil {
-			if t.Entity == nil {
+			if t.Entity == nil || !t.signaturesVerified {
 				return nil
 			}
 			return []TrustChain{
-- 
2.43.0


From c3d23fa3c422ace78fad572d9139b318689ae790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 03/53] fix: compute the expiration of a trust tree over all
 its statements

---
 trustresolver.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index ac4bf0d..052f343 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -323,9 +323,7 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 	if t.Entity == nil {
 		return
 	}
-	if t.Entity.ExpiresAt.Before(t.expiresAt.Time) {
-		t.expiresAt = t.Entity.ExpiresAt
-	}
+	t.limitExpiration(t.Entity.ExpiresAt)
 	if utils.SliceContains(t.Entity.Issuer, anchors.EntityIDs()) {
 		return
 	}
@@ -360,9 +358,7 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 		if !t.checkConstraints(subordinateStmt.Constraints) {
 			continue
 		}
-		if subordinateStmt.ExpiresAt.Before(t.expiresAt.Time) {
-			t.expiresAt = subordinateStmt.ExpiresAt
-		}
+		t.limitExpiration(subordinateStmt.ExpiresAt)
 		entityTypes := t.includedEntityTypes.Copy()
 		entityTypes.Add(aStmt.Metadata.GuessEntityTypes()...)
 		subordinates := t.subordinateIDs.Copy()
@@ -375,10 +371,18 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 			subordinateIDs:      subordinates,
 		}
 		tt.resolve(anchors)
+		t.limitExpiration(tt.expiresAt)
 		t.Authorities[i] = tt
 	}
 }
 
+// limitExpiration makes sure that the expiration of the tree is not after the passed expiration
+func (t *trustTree) limitExpiration(exp unixtime.Unixtime) {
+	if !exp.IsZero() && (t.expiresAt.IsZero() || exp.Before(t.expiresAt.Time)) {
+		t.expiresAt = exp
+	}
+}
+
 func (t *trustTree) checkConstraints(constraints *ConstraintSpecification) bool {
 	if constraints == nil {
 		return true
-- 
2.43.0


From d53440038b63b2269166e1df5ce0582dd1590d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 04/53] fix: do not store already expired entries forever in
 the redis cache

---
 cache/redis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cache/redis.go b/cache/redis.go
index db101ad..45c7563 100644
--- a/cache/redis.go
+++ b/cache/redis.go
@@ -28,6 +28,10 @@ func (c redisCache) Get(key string, target any) (bool, error) {
 
 // Set implements the Cache interface
 func (c redisCache) Set(key string, value any, expiration time.Duration) error {
+	if expiration <= 0 {
+		// already expired; redis would store such an entry without any expiration
+		return nil
+	}
 	data, err := msgpack.Marshal(value)
 	if err != nil {
 		return err
-- 
2.43.0


From 80fbbd195438c8944b5e327a7956fc2473807dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 05/53] fix: include the trust anchors' keys in the trust tree
 and trust chain cache keys

---
 trustresolver.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 052f343..25cfdd3 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -147,17 +147,13 @@ type TrustResolver struct {
 }
 
 func (r TrustResolver) hash() ([]byte, error) {
-	tas := make([]string, len(r.TrustAnchors))
-	for i, ta := range r.TrustAnchors {
-		tas[i] = ta.EntityID
-	}
 	var forSerialization = struct {
 		StartingEntity string
-		TAs            []string
+		TAs            []TrustAnchor
 		Types          []string
 	}{
 		StartingEntity: r.StartingEntity,
-		TAs:            tas,
+		TAs:            r.TrustAnchors,
 		Types:          r.Types,
 	}
 	data, err := msgpack.Marshal(forSerialization)
-- 
2.43.0


From a1374032550d1063c9cd243a8d4feda0c33867cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 06/53] fix: keep the other operators of a metadata policy
 entry when an unknown operator is merged

---
 metadataPolicy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index e79c97b..6b7c5e5 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -213,7 +213,8 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 		if !ok {
 			// return nil, errors.Errorf("unknown policy operator '%s'; cannot combine these policies", op)
 			// We already checked that this is not a crit operator, so it is just ignored
-			return nil, nil
+			out[op] = av
+			continue
 		}
 		combined, err := operator.Merge(av, bv, pathInfo)
 		if err != nil {
-- 
2.43.0


From 686fc2bbf94956c8e4584e8e2740a677f35fa8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 07/53] fix: verify the subordinate metadata policy also when
 the superior policy is empty

---
 metadataPolicy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index 6b7c5e5..2eb615a 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -177,7 +177,7 @@ func combineMetadataPolicy(parent, sub MetadataPolicy, pathInfo string) (Metadat
 		return parent, nil
 	}
 	if len(parent) == 0 {
-		return sub, nil
+		return sub, sub.Verify(pathInfo)
 	}
 	out := make(MetadataPolicy)
 	for k, pv := range parent {
-- 
2.43.0


From 2fcb16c3932e25712b3f2e1c2601ebf1ff6faf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 08/53] fix: ignore unknown operators when verifying the
 operator combination of a metadata policy entry

---
 metadataPolicy.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index 2eb615a..2e96c67 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -6,8 +6,6 @@ import (
 
 	"github.com/pkg/errors"
 	"tideland.dev/go/slices"
-
-	"github.com/go-oidfed/lib/internal/utils"
 )
 
 // MetadataPolicies is a type for holding the different MetadataPolicy
@@ -233,12 +231,15 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 
 // Verify verifies that the MetadataPolicyEntry is valid
 func (p MetadataPolicyEntry) Verify(pathInfo string) error {
-	activeOperators := utils.MapKeys(p)
-	for _, opN := range activeOperators {
-		op, ok := operators[opN]
-		if !ok {
-			continue
+	activeOperators := make([]PolicyOperatorName, 0, len(p))
+	for opN := range p {
+		// unknown (non-critical) operators are ignored
+		if _, known := operators[opN]; known {
+			activeOperators = append(activeOperators, opN)
 		}
+	}
+	for _, opN := range activeOperators {
+		op := operators[opN]
 		mayCombine := op.MayCombineWith()
 		if mayCombine == nil {
 			continue
-- 
2.43.0


From b5e120b774f7663c41c054de5aa6078f5f463184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 09/53] fix: do not write into the backing array of the
 operands when computing a union

---
 internal/utils/slices.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index f18a91d..d24208c 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -92,7 +92,9 @@ func ReflectSliceContains(v, slice any) bool {
 func ReflectUnion(a, b any) any {
 	as := Slicify(a)
 	bs := Slicify(b)
-	out := reflect.ValueOf(as)
+	// copy a, so that we never write into the spare capacity of the passed slice
+	asV := reflect.ValueOf(as)
+	out := reflect.AppendSlice(reflect.MakeSlice(asV.Type(), 0, asV.Len()), asV)
 	bV := reflect.ValueOf(bs)
 	if bV.Len() == 0 {
 		return out.Interface()
-- 
2.43.0


From 4e46be9005f3ab3b51cbc49d46c6e08a71e98bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 10/53] fix: do not panic on metadata policy values whose type
 differs from the metadata parameter's type

---
 internal/utils/slices.go | 30 +++++++++++++++++++++++++++---
 metadata.go              | 18 +++++++++++++++---
 policyverifiers.go       |  3 +++
 3 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index d24208c..f984210 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -23,7 +23,7 @@ func RemoveFromSlice[C comparable](slice []C, v C) []C {
 
 // ReflectSliceCast casts a slice to another type using reflection
 func ReflectSliceCast(slice, newType any) any {
-	if !IsSlice(slice) {
+	if !IsSlice(slice) || !IsSlice(newType) {
 		return slice
 	}
 	typeType := reflect.TypeOf(newType)
@@ -31,6 +31,10 @@ func ReflectSliceCast(slice, newType any) any {
 	out := reflect.MakeSlice(typeType, sliceV.Len(), sliceV.Len())
 	for i := 0; i < sliceV.Len(); i++ {
 		vv := sliceV.Index(i)
+		if el := typeType.Elem(); el.Kind() != reflect.Interface && reflect.TypeOf(vv.Interface()) != el {
+			// not castable, leave the slice as it is
+			return slice
+		}
 		var v reflect.Value
 		// This is stupid and has faults, but I did not find a better way
 		switch typeType.Elem().Kind() {
@@ -57,7 +61,7 @@ func ReflectSliceCast(slice, newType any) any {
 		case reflect.Uint64:
 			v = reflect.ValueOf(vv.Interface().(uint64))
 		case reflect.Uintptr:
-			v = reflect.ValueOf(vv.Interface().(*uint))
+			v = reflect.ValueOf(vv.Interface().(uintptr))
 		case reflect.Float32:
 			v = reflect.ValueOf(vv.Interface().(float32))
 		case reflect.Float64:
@@ -67,7 +71,7 @@ func ReflectSliceCast(slice, newType any) any {
 		case reflect.String:
 			v = reflect.ValueOf(vv.Interface().(string))
 		default:
-			v = vv.Convert(typeType.Elem())
+			v = reflect.ValueOf(vv.Interface())
 		}
 		out.Index(i).Set(v)
 	}
@@ -92,6 +96,12 @@ func ReflectSliceContains(v, slice any) bool {
 func ReflectUnion(a, b any) any {
 	as := Slicify(a)
 	bs := Slicify(b)
+	if as == nil {
+		return bs
+	}
+	if bs == nil {
+		return as
+	}
 	// copy a, so that we never write into the spare capacity of the passed slice
 	asV := reflect.ValueOf(as)
 	out := reflect.AppendSlice(reflect.MakeSlice(asV.Type(), 0, asV.Len()), asV)
@@ -106,6 +116,14 @@ func ReflectUnion(a, b any) any {
 	if out.Len() == 0 {
 		return bV.Interface()
 	}
+	if out.Type() != bV.Type() {
+		// no common element type
+		generic := make([]any, 0, out.Len()+bV.Len())
+		for i := 0; i < out.Len(); i++ {
+			generic = append(generic, out.Index(i).Interface())
+		}
+		out = reflect.ValueOf(generic)
+	}
 	for i := 0; i < bV.Len(); i++ {
 		v := bV.Index(i)
 		if !ReflectSliceContains(v.Interface(), out.Interface()) {
@@ -119,6 +137,9 @@ func ReflectUnion(a, b any) any {
 func ReflectIntersect(a, b any) any {
 	as := Slicify(a)
 	bs := Slicify(b)
+	if as == nil || bs == nil {
+		return nil
+	}
 	aV := reflect.ValueOf(as)
 	if aV.Type() != reflect.ValueOf(bs).Type() {
 		bs = ReflectSliceCast(bs, as)
@@ -137,6 +158,9 @@ func ReflectIntersect(a, b any) any {
 func ReflectIsSubsetOf(is, of any) bool {
 	is = Slicify(is)
 	of = Slicify(of)
+	if is == nil {
+		return true
+	}
 	isV := reflect.ValueOf(is)
 	for i := 0; i < isV.Len(); i++ {
 		v := isV.Index(i)
diff --git a/metadata.go b/metadata.go
index a9bf786..59104c2 100644
--- a/metadata.go
+++ b/metadata.go
@@ -303,11 +303,23 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 				rV = reflect.ValueOf(strings.Join(strSlice, " "))
 			}
 		}
-		if rV.IsValid() {
-			f.Set(rV)
-		} else {
+		if !rV.IsValid() {
 			f.SetZero()
+			continue
+		}
+		if !rV.Type().AssignableTo(f.Type()) {
+			// e.g. numbers in a policy are always float64, or the policy has a value of the wrong type
+			target := reflect.New(f.Type())
+			data, err := json.Marshal(value)
+			if err == nil {
+				err = json.Unmarshal(data, target.Interface())
+			}
+			if err != nil {
+				return nil, errors.Wrapf(err, "metadata policy gives '%s.%s' a value of the wrong type", ownTag, j)
+			}
+			rV = target.Elem()
 		}
+		f.Set(rV)
 	}
 
 	return metadata, nil
diff --git a/policyverifiers.go b/policyverifiers.go
index c57f1dd..4bbb1ba 100644
--- a/policyverifiers.go
+++ b/policyverifiers.go
@@ -150,6 +150,9 @@ func policyVerifyAddInOneOf(p MetadataPolicyEntry, pathInfo string) error {
 		return nil
 	}
 	addVs := utils.Slicify(addV)
+	if addVs == nil || reflect.ValueOf(addVs).Len() == 0 {
+		return nil
+	}
 	if reflect.ValueOf(addVs).Len() > 1 {
 		return errors.Errorf(
 			"cannot have multiple values in '%s' operator in combination with '%s' operator for '%s' policy",
-- 
2.43.0


From db504c94ee698314bc3189bcc6599105e5706fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 11/53] fix: support metadata policies for entity types not
 known to the library

---
 metadata.go       | 27 ++++++++++++++++++++++++++-
 metadataPolicy.go | 10 +++++++---
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/metadata.go b/metadata.go
index 59104c2..451da1f 100644
--- a/metadata.go
+++ b/metadata.go
@@ -254,7 +254,11 @@ func (m Metadata) ApplyPolicy(p *MetadataPolicies) (*Metadata, error) {
 			var metadataToReturn interface{}
 			if policy, ok := p.Extra[entityType]; ok {
 				// Found a policy for the entity type, so apply it
-				applied, err := applyPolicy(metadata, policy, entityType)
+				asMap, isMap := metadata.(map[string]any)
+				if !isMap {
+					return nil, errors.Errorf("metadata for entity type '%s' is not an object", entityType)
+				}
+				applied, err := applyPolicyToMap(asMap, policy, entityType)
 				if err != nil {
 					return nil, err
 				}
@@ -272,6 +276,27 @@ func (m Metadata) ApplyPolicy(p *MetadataPolicies) (*Metadata, error) {
 	return out, nil
 }
 
+// applyPolicyToMap applies a MetadataPolicy to metadata parameters that are held in a map
+func applyPolicyToMap(metadata map[string]any, policy MetadataPolicy, ownTag string) (map[string]any, error) {
+	out := make(map[string]any, len(metadata))
+	for claim, value := range metadata {
+		out[claim] = value
+	}
+	for claim, p := range policy {
+		value, set := metadata[claim]
+		value, err := p.ApplyTo(value, set, fmt.Sprintf("%s.%s", ownTag, claim))
+		if err != nil {
+			return nil, err
+		}
+		if value == nil {
+			delete(out, claim)
+		} else {
+			out[claim] = value
+		}
+	}
+	return out, nil
+}
+
 func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error) {
 	if policy == nil {
 		return metadata, nil
diff --git a/metadataPolicy.go b/metadataPolicy.go
index 2e96c67..f126fb3 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -51,9 +51,13 @@ func (m *MetadataPolicies) UnmarshalJSON(data []byte) error {
 	if len(extra) > 0 {
 		policyMap := make(map[string]MetadataPolicy)
 		for k, v := range extra {
-			policy, ok := v.(MetadataPolicy)
-			if !ok {
-				return errors.Errorf("non MetadataPolicy in metadata policies")
+			policyData, err := json.Marshal(v)
+			if err != nil {
+				return errors.WithStack(err)
+			}
+			var policy MetadataPolicy
+			if err = json.Unmarshal(policyData, &policy); err != nil {
+				return errors.Wrap(err, "non MetadataPolicy in metadata policies")
 			}
 
 			policyMap[k] = policy
-- 
2.43.0


From 2f7fc5b7199b10d6bba012b8f284b3abcf917a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 12/53] fix: apply metadata policies to metadata parameters
 without a dedicated field

---
 metadata.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/metadata.go b/metadata.go
index 451da1f..c2210d8 100644
--- a/metadata.go
+++ b/metadata.go
@@ -306,12 +306,17 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 
 	wasSetField := v.Elem().FieldByName("wasSet")
 	wasSet := *(*map[string]bool)(unsafe.Pointer(wasSetField.UnsafeAddr())) // skipcq:  GSC-G103
+	extraPolicy := make(MetadataPolicy, len(policy))
+	for claim, p := range policy {
+		extraPolicy[claim] = p
+	}
 	for i := 0; i < t.NumField(); i++ {
 		j, ok := t.Field(i).Tag.Lookup("json")
 		if !ok {
 			continue
 		}
 		j = strings.TrimSuffix(j, ",omitempty")
+		delete(extraPolicy, j)
 		p, ok := policy[j]
 		if !ok {
 			continue
@@ -346,6 +351,20 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 		}
 		f.Set(rV)
 	}
+	if len(extraPolicy) == 0 {
+		return metadata, nil
+	}
+	// the policy has entries for metadata parameters without a dedicated field
+	extraField := v.Elem().FieldByName("Extra")
+	if extra, ok := extraField.Interface().(map[string]any); ok {
+		applied, err := applyPolicyToMap(extra, extraPolicy, ownTag)
+		if err != nil {
+			return nil, err
+		}
+		if len(applied) > 0 || extra != nil {
+			extraField.Set(reflect.ValueOf(applied))
+		}
+	}
 
 	return metadata, nil
 }
-- 
2.43.0


From b4787124378c15198d264ad89a9e0b27a637a965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 13/53] fix: apply set operators to the individual values of
 the scope metadata parameter

---
 metadata.go       |  7 ++++++-
 metadataPolicy.go | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/metadata.go b/metadata.go
index c2210d8..21fde00 100644
--- a/metadata.go
+++ b/metadata.go
@@ -322,7 +322,12 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 			continue
 		}
 		f := reflect.Indirect(v).Field(i)
-		value, err := p.ApplyTo(f.Interface(), wasSet[t.Field(i).Name], fmt.Sprintf("%s.%s", ownTag, j))
+		current := f.Interface()
+		if scope, isStr := current.(string); isStr && scope != "" && t.Field(i).Name == "Scope" && p.hasSetOperator() {
+			// set operators work on the individual scope values
+			current = strings.Fields(scope)
+		}
+		value, err := p.ApplyTo(current, wasSet[t.Field(i).Name], fmt.Sprintf("%s.%s", ownTag, j))
 		if err != nil {
 			return nil, err
 		}
diff --git a/metadataPolicy.go b/metadataPolicy.go
index f126fb3..53c87a6 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -264,6 +264,20 @@ func (p MetadataPolicyEntry) Verify(pathInfo string) error {
 	return nil
 }
 
+// hasSetOperator checks if the entry has an operator that works on a set of values
+func (p MetadataPolicyEntry) hasSetOperator() bool {
+	for _, op := range []PolicyOperatorName{
+		PolicyOperatorAdd,
+		PolicyOperatorSubsetOf,
+		PolicyOperatorSupersetOf,
+	} {
+		if _, found := p[op]; found {
+			return true
+		}
+	}
+	return false
+}
+
 // ApplyTo applies this MetadataPolicyEntry to the passed value and returns the resulting value
 func (p MetadataPolicyEntry) ApplyTo(value any, valueSet bool, pathInfo string) (any, error) {
 	var err error
-- 
2.43.0


From 451e5575d33fa67c65a780f9d363b0be196d8c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 14/53] fix: decode metadata of known entity types into the
 passed object

---
 metadata.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/metadata.go b/metadata.go
index 21fde00..0d28e40 100644
--- a/metadata.go
+++ b/metadata.go
@@ -390,17 +390,16 @@ func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
 		if j != entityType {
 			continue
 		}
-		if j == entityType {
-			fmt.Printf("found entity type %s\n", entityType)
-		}
-
 		value := v.Elem().FieldByName(t.Field(i).Name)
 		if value.IsZero() {
 			continue
 		}
 
-		metadata = value.Interface()
-		return nil
+		jsonMetadata, err := json.Marshal(value.Interface())
+		if err != nil {
+			return errors.Errorf("failed to marshal metadata: %s", err)
+		}
+		return json.Unmarshal(jsonMetadata, metadata)
 	}
 
 	// Requested entity type was not a struct field, so find it in the extra metadata.
-- 
2.43.0


From 09448ae1a64446dccd5fb5477f9891f406806293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 15/53] fix: only accept a JWT type if the message has exactly
 one signature

---
 internal/jwx/jws.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/jwx/jws.go b/internal/jwx/jws.go
index 580bb27..b8db04f 100644
--- a/internal/jwx/jws.go
+++ b/internal/jwx/jws.go
@@ -60,7 +60,8 @@ func (p *ParsedJWT) VerifyWithSet(keys myjwk.JWKS) ([]byte, error) {
 
 // VerifyType verifies that the header typ has a certain value
 func (p *ParsedJWT) VerifyType(typ string) bool {
-	if p.Signatures() == nil {
+	if len(p.Signatures()) != 1 {
+		// with multiple signatures the verified one might not be the one with the checked type
 		return false
 	}
 	head := p.Signatures()[0].ProtectedHeaders()
-- 
2.43.0


From 6516894f0e7169e41eff346ea83f8527cb8f6304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 16/53] fix: do not panic if a trust mark issuer does not
 publish keys

---
 trustmark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index 5714f3d..cdb4ec6 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -249,7 +249,7 @@ func getTrustMarkIssuerJWKS(
 		err = errors.Wrap(err, "error while parsing trust mark issuer entity statement")
 		return
 	}
-	if tmi == nil || tmi.JWKS.Len() == 0 {
+	if tmi == nil || tmi.JWKS.Set == nil || tmi.JWKS.Len() == 0 {
 		err = errors.New("no jwks found for trust mark issuer")
 		return
 	}
-- 
2.43.0


From 0b0b3d83de5030fb0d3efb54a42a41cb0ff8fd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 17/53] fix: respect the custom lifetime when issuing
 delegation jwts

---
 trustmark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index cdb4ec6..792024f 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -563,7 +563,7 @@ func (tmo TrustMarkOwner) DelegationJWT(trustMarkType, sub string, lifetime ...t
 	if len(lifetime) > 0 {
 		lf = lifetime[0]
 	}
-	if spec.DelegationLifetime != 0 {
+	if lf != 0 {
 		delegation.ExpiresAt = &unixtime.Unixtime{Time: now.Add(lf)}
 	}
 	return tmo.TrustMarkDelegationSigner.JWT(delegation)
-- 
2.43.0


From 0bb5781080023e5e85ffb7351cabed731ee7bf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 18/53] fix: only report trust marks that were issued to the
 entity presenting them

---
 discovery.go         |  5 +++--
 metadata_resolver.go |  3 ++-
 trustmark.go         | 10 ++++++++++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/discovery.go b/discovery.go
index 4554f91..055e688 100644
--- a/discovery.go
+++ b/discovery.go
@@ -318,7 +318,7 @@ func (d *SimpleEntityCollector) collect(
 							}
 
 							for _, trustMarkType := range req.TrustMarkTypes {
-								trustMarkInfo := entityConfig.TrustMarks.FindByID(trustMarkType)
+								trustMarkInfo := entityConfig.TrustMarks.forSubject(subordinateID).FindByID(trustMarkType)
 								if trustMarkInfo == nil {
 									includeEntity = false
 									break
@@ -426,7 +426,8 @@ func (d *SimpleEntityCollector) collect(
 										},
 									)
 									if taErr == nil {
-										collectedEntity.TrustMarks = entityConfig.TrustMarks.VerifiedFederation(&ta.EntityStatementPayload)
+										collectedEntity.TrustMarks = entityConfig.TrustMarks.forSubject(subordinateID).
+											VerifiedFederation(&ta.EntityStatementPayload)
 									}
 								}
 
diff --git a/metadata_resolver.go b/metadata_resolver.go
index 6cac3b0..d32c806 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -76,7 +76,8 @@ func (r LocalMetadataResolver) ResolveResponsePayload(req apimodel.ResolveReques
 	if err != nil {
 		return
 	}
-	res.TrustMarks = chain[0].TrustMarks.VerifiedFederation(&chain[len(chain)-1].EntityStatementPayload)
+	res.TrustMarks = chain[0].TrustMarks.forSubject(chain[0].Subject).
+		VerifiedFederation(&chain[len(chain)-1].EntityStatementPayload)
 	return
 }
 
diff --git a/trustmark.go b/trustmark.go
index 792024f..7c3677a 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -28,6 +28,16 @@ func (tms TrustMarkInfos) VerifiedFederation(ta *EntityStatementPayload) (verifi
 	return
 }
 
+// forSubject returns the TrustMarkInfos that were issued to the passed subject
+func (tms TrustMarkInfos) forSubject(sub string) (own TrustMarkInfos) {
+	for _, tm := range tms {
+		if mark, err := tm.TrustMark(); err == nil && mark.Subject == sub {
+			own = append(own, tm)
+		}
+	}
+	return
+}
+
 // VerifiedExternal verifies all TrustMarkInfos by using the passed trust mark issuer jwks and optionally the passed
 // trust mark owner jwks and returns only the valid TrustMarkInfos
 func (tms TrustMarkInfos) VerifiedExternal(
-- 
2.43.0


From caf4b720ef4157c905a91f33024c8d95b43d773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 19/53] fix: keep using trust marks that do not expire

---
 trustmark_refresher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index e33741e..9a624a8 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -84,6 +84,10 @@ func (c *EntityConfigurationTrustMarkConfig) TrustMarkJWT() (string, error) {
 	if !c.Refresh {
 		return c.JWT, nil
 	}
+	if c.JWT != "" && c.expiration.IsZero() {
+		// the trust mark does not expire
+		return c.JWT, nil
+	}
 	if c.JWT != "" && unixtime.Until(c.expiration) > c.MinLifetime.Duration {
 		if unixtime.Until(c.expiration) < c.RefreshGracePeriod.Duration {
 			go c.refresh()
-- 
2.43.0


From d053f6155f05dcc8f763e719b9ed05d5961455dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 20/53] fix: allow refreshing a self-issued trust mark that was
 configured with an initial jwt

---
 trustmark_refresher.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index 9a624a8..796245b 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -58,6 +58,13 @@ func (c *EntityConfigurationTrustMarkConfig) Verify(
 			return errors.Wrap(err, "trustmark id not found in JWT")
 		}
 		internal.Logf("Extracted trust mark id: %s\n", c.TrustMarkType)
+		if c.SelfIssued {
+			c.SelfIssuanceSpec.TrustMarkType = c.TrustMarkType
+			c.ownTrustMarkIssuer = NewTrustMarkIssuer(
+				sub, ownTrustMarkSigner,
+				[]TrustMarkSpec{c.SelfIssuanceSpec},
+			)
+		}
 		return nil
 	}
 	c.Refresh = true
-- 
2.43.0


From b6897360c19cdaefc1c3a375be1e109aae9dca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 21/53] fix: check type and subject of a refreshed trust mark

---
 trustmark_refresher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index 796245b..7fac429 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -155,6 +155,9 @@ func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 	if err != nil {
 		return err
 	}
+	if tm.TrustMarkType != c.TrustMarkType || tm.Subject != c.sub {
+		return errors.New("received trust mark has the wrong trust mark type or subject")
+	}
 	c.JWT = string(tm.jwtMsg.RawJWT)
 	if tm.ExpiresAt != nil {
 		c.expiration = *tm.ExpiresAt
-- 
2.43.0


From 8ad4a49a6c226fd411f5b0b9eb9ddfe0a1d20a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 22/53] fix: do not drop fractions of a second when
 unmarshalling durations

---
 unixtime/unixtime.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unixtime/unixtime.go b/unixtime/unixtime.go
index 8011d4a..e19650d 100644
--- a/unixtime/unixtime.go
+++ b/unixtime/unixtime.go
@@ -66,7 +66,7 @@ func (d *DurationInSeconds) UnmarshalJSON(src []byte) error {
 	if err := json.Unmarshal(src, &f); err != nil {
 		return err
 	}
-	*d = DurationInSeconds{time.Duration(f) * time.Second}
+	*d = NewDurationInSeconds(f)
 	return nil
 }
 
@@ -76,7 +76,7 @@ func (d *DurationInSeconds) UnmarshalYAML(value *yaml.Node) error {
 	if err := value.Decode(&f); err != nil {
 		return err
 	}
-	*d = DurationInSeconds{time.Duration(f) * time.Second}
+	*d = NewDurationInSeconds(f)
 	return nil
 }
 
-- 
2.43.0


From dd25eb5ba51062a0552b6c774603bdab805daf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 23/53] fix: marshal timestamps that do not fit into
 nanoseconds since epoch

---
 unixtime/unixtime.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unixtime/unixtime.go b/unixtime/unixtime.go
index e19650d..318c9c6 100644
--- a/unixtime/unixtime.go
+++ b/unixtime/unixtime.go
@@ -30,7 +30,7 @@ func (u Unixtime) MarshalJSON() ([]byte, error) {
 	if u.IsZero() {
 		return json.Marshal(0)
 	}
-	return json.Marshal(float64(u.UnixNano()) / 1e9)
+	return json.Marshal(float64(u.Unix()) + float64(u.Nanosecond())/1e9)
 }
 
 // Until returns the time.Duration from now until an Unixtime
-- 
2.43.0


From 74477557f0624e43a80b9a78b5894d02cdea257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 24/53] fix: do not treat errors of a remote resolver as a
 confirmed invalid trust chain

---
 metadata_resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata_resolver.go b/metadata_resolver.go
index d32c806..5a678d2 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -169,7 +169,7 @@ func (r SimpleRemoteMetadataResolver) ResolvePossible(req apimodel.ResolveReques
 	_, resStatus, err := r.ResolveResponse(req)
 	if err != nil {
 		internal.Log(err.Error())
-		return false, true
+		return false, false
 	}
 	switch resStatus {
 	case resolveStatusValid, resolveStatusOnlyValidTrustChain:
-- 
2.43.0


From d20abc918e54038664e5ed7de3e7c42c2083798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 25/53] fix: return an error if a resolved entity has no openid
 provider metadata

---
 federation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/federation.go b/federation.go
index bddd1d7..afd7c80 100644
--- a/federation.go
+++ b/federation.go
@@ -146,5 +146,8 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	if err != nil {
 		return nil, errors.Wrap(err, "no trust chain with valid metadata found")
 	}
+	if metadata == nil || metadata.OpenIDProvider == nil {
+		return nil, errors.New("entity does not have openid_provider metadata")
+	}
 	return metadata.OpenIDProvider, nil
 }
-- 
2.43.0


From 42e38e89976e227f016aac1253d82078a5f377e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 26/53] fix: keep existing query parameters of the
 authorization endpoint

---
 authcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authcode.go b/authcode.go
index 85eb3db..a2ced29 100644
--- a/authcode.go
+++ b/authcode.go
@@ -151,7 +151,7 @@ func (f FederationLeaf) GetAuthorizationURL(
 	if err != nil {
 		return "", errors.WithStack(err)
 	}
-	q := url.Values{}
+	q := u.Query()
 	q.Set("request", string(requestObject))
 	q.Set("client_id", f.EntityID)
 	q.Set("response_type", "code")
-- 
2.43.0


From 66a97fcdb67efe1c82f885d978f5bb8f9502c32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 27/53] fix: do not modify the caller's parameters in the code
 exchange

---
 authcode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/authcode.go b/authcode.go
index a2ced29..6071859 100644
--- a/authcode.go
+++ b/authcode.go
@@ -170,9 +170,9 @@ func (f FederationLeaf) CodeExchange(
 	if err != nil {
 		return nil, nil, err
 	}
-	params := additionalParameter
-	if params == nil {
-		params = url.Values{}
+	params := url.Values{}
+	for k, v := range additionalParameter {
+		params[k] = v
 	}
 	params.Set("grant_type", "authorization_code")
 	params.Set("code", code)
-- 
2.43.0


From 3add059db3c910a759aa29fbe70c40c4e9520230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 28/53] fix: unmarshal the standard claims of a resolve
 response

---
 trustresolver.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index 25cfdd3..7b16df1 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -77,6 +77,45 @@ func (r ResolveResponse) MarshalJSON() ([]byte, error) {
 	return extraMarshalHelper(append(payload[:len(payload)-1], additional...), r.Extra)
 }
 
+// UnmarshalJSON implements the json.Unmarshaler interface.
+// It also unmarshalls additional fields into the Extra claim.
+func (r *ResolveResponse) UnmarshalJSON(data []byte) error {
+	type Alias ResolveResponsePayload
+	type response struct {
+		Issuer    string            `json:"iss"`
+		Subject   string            `json:"sub"`
+		IssuedAt  unixtime.Unixtime `json:"iat"`
+		ExpiresAt unixtime.Unixtime `json:"exp"`
+		Audience  string            `json:"aud"`
+		Alias
+	}
+	var rr response
+	if err := json.Unmarshal(data, &rr); err != nil {
+		return err
+	}
+	if err := json.Unmarshal(data, &r.ResolveResponsePayload); err != nil {
+		return err
+	}
+	for _, claim := range []string{
+		"iss",
+		"sub",
+		"iat",
+		"exp",
+		"aud",
+	} {
+		delete(r.Extra, claim)
+	}
+	if len(r.Extra) == 0 {
+		r.Extra = nil
+	}
+	r.Issuer = rr.Issuer
+	r.Subject = rr.Subject
+	r.IssuedAt = rr.IssuedAt
+	r.ExpiresAt = rr.ExpiresAt
+	r.Audience = rr.Audience
+	return nil
+}
+
 // ResolveResponsePayload holds the actual payload of a resolve response
 type ResolveResponsePayload struct {
 	Metadata   *Metadata              `json:"metadata,omitempty"`
-- 
2.43.0


From 653b4e70c9a144433a10840ac59619a76abf00ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 29/53] fix: set the ui info claims of collected entities

---
 discovery.go | 2 +-
 metadata.go  | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/discovery.go b/discovery.go
index 055e688..b82e8bb 100644
--- a/discovery.go
+++ b/discovery.go
@@ -76,7 +76,7 @@ func (e *CollectedEntity) setUIInfoField(
 		structField := uiInfoType.Field(i)
 		tag := structField.Tag.Get("json")
 		tagName := tag
-		if commaIdx := len(tag); commaIdx != -1 {
+		if commaIdx := strings.Index(tag, ","); commaIdx != -1 {
 			tagName = tag[:commaIdx]
 		}
 
diff --git a/metadata.go b/metadata.go
index 0d28e40..3fd8673 100644
--- a/metadata.go
+++ b/metadata.go
@@ -136,9 +136,8 @@ func (m Metadata) IterateStringSliceClaim(tag string, iterator func(entityType s
 				jsonTag := subStructField.Tag.Get("json")
 				jsonTag = strings.TrimSuffix(jsonTag, ",omitempty")
 
-				if jsonTag == tag && subField.Kind() == reflect.String {
-					slice := subField.Interface().([]string)
-					if slice != nil {
+				if jsonTag == tag {
+					if slice, ok := subField.Interface().([]string); ok && slice != nil {
 						iterator(entityTag, slice)
 					}
 					break
-- 
2.43.0


From bc22557f2e6058de3875dbac60ab063c0ef962fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 30/53] fix: refresh a cached statement after the configured
 share of its lifetime has elapsed

---
 trustresolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustresolver.go b/trustresolver.go
index 7b16df1..7fc40c1 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -599,7 +599,7 @@ func getEntityStatementOrConfiguration(
 		go func() {
 			remainingLifetime := time.Until(stmt.ExpiresAt.Time)
 			totalLifetime := stmt.ExpiresAt.Sub(stmt.IssuedAt.Time)
-			if remainingLifetime <= ResolverCacheGracePeriod && float64(remainingLifetime)/float64(totalLifetime) > ResolverCacheLifetimeElapsedGraceFactor {
+			if remainingLifetime <= ResolverCacheGracePeriod && float64(totalLifetime-remainingLifetime)/float64(totalLifetime) > ResolverCacheLifetimeElapsedGraceFactor {
 				internal.Log("Within grace period, refreshing entity statement")
 				_, err := obtainAndSetEntityStatementOrConfiguration(
 					subID,
-- 
2.43.0


From 7568ba80df637f1818f8b2e815f12bfac183822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 31/53] fix: compare host names in naming constraints
 case-insensitively

---
 trustresolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trustresolver.go b/trustresolver.go
index 7fc40c1..a382435 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -471,7 +471,8 @@ func matchNamingConstraint(constraint, id string) bool {
 	if err != nil {
 		return false
 	}
-	host := u.Hostname()
+	host := strings.ToLower(u.Hostname())
+	constraint = strings.ToLower(constraint)
 	if strings.HasPrefix(constraint, ".") {
 		return strings.HasSuffix(host, constraint)
 	}
-- 
2.43.0


From 91a0a68651b46428569e44090779b044c5e98277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 32/53] fix: synchronise the access to the visited entities of
 the entity collector

---
 discovery.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/discovery.go b/discovery.go
index b82e8bb..52fb2c2 100644
--- a/discovery.go
+++ b/discovery.go
@@ -165,6 +165,7 @@ type EntityCollector interface {
 // federation
 type SimpleEntityCollector struct {
 	visitedEntities *strset.Set
+	visitedMu       sync.Mutex
 }
 
 // SimpleOPCollector is an EntityCollector that uses the
@@ -269,11 +270,14 @@ func (d *SimpleEntityCollector) collect(
 	for _, authority := range authorities {
 		run(
 			func() {
-				if d.visitedEntities.Has(authority.EntityID) {
+				d.visitedMu.Lock()
+				visited := d.visitedEntities.Has(authority.EntityID)
+				d.visitedEntities.Add(authority.EntityID)
+				d.visitedMu.Unlock()
+				if visited {
 					internal.Logf("Already visited: %s -> skipping", authority.EntityID)
 					return
 				}
-				d.visitedEntities.Add(authority.EntityID)
 
 				stmt, err := GetEntityConfiguration(authority.EntityID)
 				if err != nil {
-- 
2.43.0


From 684c8ede2effae0e82b83055e60fa73a3f8d0667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 33/53] fix: consider entity types unknown to the library when
 guessing entity types

---
 metadata.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metadata.go b/metadata.go
index 3fd8673..691ad20 100644
--- a/metadata.go
+++ b/metadata.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"sort"
 	"strings"
 	"unsafe"
 
@@ -40,7 +41,12 @@ func (m Metadata) GuessEntityTypes() (entityTypes []string) {
 			entityTypes = append(entityTypes, jsonTag)
 		}
 	}
-	return
+	extraTypes := make([]string, 0, len(m.Extra))
+	for entityType := range m.Extra {
+		extraTypes = append(extraTypes, entityType)
+	}
+	sort.Strings(extraTypes)
+	return append(entityTypes, extraTypes...)
 }
 
 // GuessDisplayName implements the DisplayNameGuesser interface
-- 
2.43.0


From d2d919c5edaf8ac6222933a744491678fdadb71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 34/53] fix: do not modify the caller's values when creating a
 request object

---
 authcode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/authcode.go b/authcode.go
index 6071859..f10a51c 100644
--- a/authcode.go
+++ b/authcode.go
@@ -4,6 +4,7 @@ import (
 	"crypto"
 	"encoding/json"
 	"io"
+	"maps"
 	"net/http"
 	"net/url"
 	"time"
@@ -74,6 +75,7 @@ func (rop RequestObjectProducer) RequestObject(requestValues map[string]any) ([]
 	if _, audFound := requestValues["aud"]; !audFound {
 		return nil, errors.New("request must contain 'aud' claim with OPs issuer identifier url")
 	}
+	requestValues = maps.Clone(requestValues)
 	requestValues["iss"] = rop.EntityID
 	requestValues["client_id"] = rop.EntityID
 	delete(requestValues, "sub")
-- 
2.43.0


From b5599682bde749c227ee29c636eeba08340034a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 35/53] fix: accept false and zero as present for the essential
 policy operator

---
 policyoperators.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/policyoperators.go b/policyoperators.go
index 882e81b..d29d860 100644
--- a/policyoperators.go
+++ b/policyoperators.go
@@ -351,7 +351,8 @@ var policyOperatorEssential = NewPolicyOperator(
 			return value, valueSet, nil
 		}
 		if essential, eok := policyValue.(bool); eok && essential &&
-			(value == nil || (!utils.IsSlice(value) && reflect.ValueOf(value).IsZero())) {
+			(value == nil || (!utils.IsSlice(value) && reflect.ValueOf(value).IsZero() &&
+				!(valueSet && isBoolOrNumber(value)))) {
 			return nil, valueSet, errors.Errorf("metadata value for '%s' not set but required", pathInfo)
 		}
 		return value, valueSet, nil
@@ -359,6 +360,18 @@ var policyOperatorEssential = NewPolicyOperator(
 	nil,
 )
 
+// isBoolOrNumber checks if the value is of a type for which the zero value (false, 0) is an ordinary value
+func isBoolOrNumber(value any) bool {
+	switch reflect.TypeOf(value).Kind() {
+	case reflect.Bool, reflect.Float32, reflect.Float64,
+		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return true
+	default:
+		return false
+	}
+}
+
 func init() {
 	operators = make(map[PolicyOperatorName]PolicyOperator)
 	RegisterPolicyOperator(policyOperatorSubsetOf)
-- 
2.43.0


From 3ce3fd32eff4e717daab2fce38e009dca5e84bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 36/53] fix: reject policies whose value contradicts one_of or
 superset_of

---
 policyverifiers.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/policyverifiers.go b/policyverifiers.go
index 4bbb1ba..177246d 100644
--- a/policyverifiers.go
+++ b/policyverifiers.go
@@ -124,6 +124,44 @@ func policyVerifySubsetOfAndValue(p MetadataPolicyEntry, pathInfo string) error
 
 }
 
+func policyVerifyValueInOneOf(p MetadataPolicyEntry, pathInfo string) error {
+	valueV, valueSet := p[PolicyOperatorValue]
+	oneOfV, oneOfSet := p[PolicyOperatorOneOf]
+	if !valueSet || !oneOfSet {
+		return nil
+	}
+	if !utils.ReflectSliceContains(valueV, utils.Slicify(oneOfV)) {
+		return errors.Errorf(
+			"after combining policies '%s' the '%s' operator value '%v' is not included in the '%s' operator '%v'",
+			pathInfo,
+			PolicyOperatorValue,
+			valueV,
+			PolicyOperatorOneOf,
+			oneOfV,
+		)
+	}
+	return nil
+}
+
+func policyVerifyValueSuperset(p MetadataPolicyEntry, pathInfo string) error {
+	valueV, valueSet := p[PolicyOperatorValue]
+	superV, superSet := p[PolicyOperatorSupersetOf]
+	if !valueSet || !superSet || valueV == nil {
+		return nil
+	}
+	if !utils.ReflectIsSupersetOf(valueV, superV) {
+		return errors.Errorf(
+			"after combining policies '%s' the '%s' operator values '%v' are not a superset of the '%s' operator '%v'",
+			pathInfo,
+			PolicyOperatorValue,
+			valueV,
+			PolicyOperatorSupersetOf,
+			superV,
+		)
+	}
+	return nil
+}
+
 func policyVerifyDefaultInSubset(p MetadataPolicyEntry, pathInfo string) error {
 	subsetV, subset := p[PolicyOperatorSubsetOf]
 	defaultV, defaultSet := p[PolicyOperatorDefault]
@@ -249,5 +287,7 @@ func init() {
 	// RegisterPolicyVerifier(policyVerifySubsetOfStillHasValues)
 	RegisterPolicyVerifier(policyVerifyOneOfStillHasValues)
 	RegisterPolicyVerifier(policyVerifySubsetOfAndValue)
+	RegisterPolicyVerifier(policyVerifyValueInOneOf)
+	RegisterPolicyVerifier(policyVerifyValueSuperset)
 	RegisterPolicyVerifier(policyVerifyDefaultAndValue)
 }
-- 
2.43.0


From b1f72eff1e00ece992f01058477c3ca4a253a1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 37/53] fix: reject absent list parameters that are essential

---
 policyoperators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/policyoperators.go b/policyoperators.go
index d29d860..739ca66 100644
--- a/policyoperators.go
+++ b/policyoperators.go
@@ -351,8 +351,8 @@ var policyOperatorEssential = NewPolicyOperator(
 			return value, valueSet, nil
 		}
 		if essential, eok := policyValue.(bool); eok && essential &&
-			(value == nil || (!utils.IsSlice(value) && reflect.ValueOf(value).IsZero() &&
-				!(valueSet && isBoolOrNumber(value)))) {
+			(value == nil || (reflect.ValueOf(value).IsZero() &&
+				!(valueSet && (utils.IsSlice(value) || isBoolOrNumber(value))))) {
 			return nil, valueSet, errors.Errorf("metadata value for '%s' not set but required", pathInfo)
 		}
 		return value, valueSet, nil
-- 
2.43.0


From 6fd055680483eb019f15a02cded6779813dee6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 38/53] fix: compare numbers in metadata policies by value, not
 by Go type

---
 internal/utils/slices.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index f984210..a57f03b 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -85,13 +85,28 @@ func ReflectSliceContains(v, slice any) bool {
 	}
 	sliceV := reflect.ValueOf(slice)
 	for i := 0; i < sliceV.Len(); i++ {
-		if reflect.DeepEqual(v, sliceV.Index(i).Interface()) {
+		if el := sliceV.Index(i).Interface(); reflect.DeepEqual(v, el) || sameNumber(v, el) {
 			return true
 		}
 	}
 	return false
 }
 
+// sameNumber checks if both values are the same number, regardless of their types; numbers in parsed json are always
+// float64, while struct fields usually are integers
+func sameNumber(a, b any) bool {
+	f := reflect.TypeOf(float64(0))
+	aV, bV := reflect.ValueOf(a), reflect.ValueOf(b)
+	if !isNumber(aV) || !isNumber(bV) || aV.Type() == bV.Type() {
+		return false
+	}
+	return aV.Convert(f).Float() == bV.Convert(f).Float()
+}
+
+func isNumber(v reflect.Value) bool {
+	return v.IsValid() && (v.CanInt() || v.CanUint() || v.CanFloat())
+}
+
 // ReflectUnion uses reflection to compute the union of two slices
 func ReflectUnion(a, b any) any {
 	as := Slicify(a)
-- 
2.43.0


From 59523e3108aff7d177a235858c21538ebf460e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 39/53] fix: sort trust chains together with their scores

---
 trustchainfilter.go | 47 ++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/trustchainfilter.go b/trustchainfilter.go
index f253fce..580a3ab 100644
--- a/trustchainfilter.go
+++ b/trustchainfilter.go
@@ -20,34 +20,49 @@ func (c TrustChains) Filter(filter ...TrustChainsFilter) TrustChains {
 
 // SortAsc sorts multiple TrustChains ascending by using the passed TrustChainScoringFnc
 func (c TrustChains) SortAsc(scorer TrustChainScoringFnc) TrustChains {
-	scores := make([]int, len(c))
-	for i, tc := range c {
-		scores[i] = scorer(tc)
-	}
-
-	sort.Slice(
-		c, func(i, j int) bool {
-			return scores[i] < scores[j] // skipcq: GO-W4009
+	scored := c.scored(scorer)
+	sort.SliceStable(
+		scored, func(i, j int) bool {
+			return scored[i].score < scored[j].score // skipcq: GO-W4009
 		},
 	)
+	for i, s := range scored {
+		c[i] = s.chain
+	}
 	return c
 }
 
 // SortDesc sorts multiple TrustChains descending by using the passed TrustChainScoringFnc
 func (c TrustChains) SortDesc(scorer TrustChainScoringFnc) TrustChains {
-	scores := make([]int, len(c))
-	for i, tc := range c {
-		scores[i] = scorer(tc)
-	}
-
-	sort.Slice(
-		c, func(i, j int) bool {
-			return scores[i] > scores[j] // skipcq: GO-W4009
+	scored := c.scored(scorer)
+	sort.SliceStable(
+		scored, func(i, j int) bool {
+			return scored[i].score > scored[j].score // skipcq: GO-W4009
 		},
 	)
+	for i, s := range scored {
+		c[i] = s.chain
+	}
 	return c
 }
 
+// scoredTrustChain is a TrustChain with its score; they must be moved together when sorting
+type scoredTrustChain struct {
+	chain TrustChain
+	score int
+}
+
+func (c TrustChains) scored(scorer TrustChainScoringFnc) []scoredTrustChain {
+	scored := make([]scoredTrustChain, len(c))
+	for i, tc := range c {
+		scored[i] = scoredTrustChain{
+			chain: tc,
+			score: scorer(tc),
+		}
+	}
+	return scored
+}
+
 // TrustChainScoringFnc a function type that takes a TrustChain and calculates a score for the chain.
 // This score then can be used to sort TrustChains
 type TrustChainScoringFnc func(c TrustChain) int
-- 
2.43.0


From 8488195460f3ad64045726404239c02454352855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 40/53] fix: no endless recursion when the smart resolver
 verifies self-issued trust marks

---
 metadata_resolver.go | 27 ++++++++++++++++++++++++---
 trustmark.go         |  2 ++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/metadata_resolver.go b/metadata_resolver.go
index 5a678d2..acca08a 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -213,8 +213,29 @@ func (r SmartRemoteMetadataResolver) Resolve(req apimodel.ResolveRequest) (*Meta
 }
 
 // ResolveResponsePayload implements the MetadataResolver interface
-func (SmartRemoteMetadataResolver) ResolveResponsePayload(req apimodel.ResolveRequest) (
+func (r SmartRemoteMetadataResolver) ResolveResponsePayload(req apimodel.ResolveRequest) (
 	ResolveResponsePayload, error,
+) {
+	if res, ok := r.remoteResolveResponsePayload(req); ok {
+		return res, nil
+	}
+	return LocalMetadataResolver{}.ResolveResponsePayload(req)
+}
+
+// resolveResponsePayloadWithoutTrustMarks is like ResolveResponsePayload, but does not verify trust marks if local
+// resolving is used
+func (r SmartRemoteMetadataResolver) resolveResponsePayloadWithoutTrustMarks(req apimodel.ResolveRequest) (
+	ResolveResponsePayload, error,
+) {
+	if res, ok := r.remoteResolveResponsePayload(req); ok {
+		return res, nil
+	}
+	res, _, err := LocalMetadataResolver{}.resolveResponsePayloadWithoutTrustMarks(req)
+	return res, err
+}
+
+func (SmartRemoteMetadataResolver) remoteResolveResponsePayload(req apimodel.ResolveRequest) (
+	payload ResolveResponsePayload, ok bool,
 ) {
 	for _, tr := range req.TrustAnchor {
 		entityConfig, err := GetEntityConfiguration(tr)
@@ -237,9 +258,9 @@ func (SmartRemoteMetadataResolver) ResolveResponsePayload(req apimodel.ResolveRe
 			internal.Logf("error while obtaining resolve response: %v", err)
 			continue
 		}
-		return res, nil
+		return res, true
 	}
-	return LocalMetadataResolver{}.ResolveResponsePayload(req)
+	return payload, false
 }
 
 // ResolvePossible implements the MetadataResolver interface
diff --git a/trustmark.go b/trustmark.go
index 7c3677a..d7d0766 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -242,6 +242,8 @@ func getTrustMarkIssuerJWKS(
 	switch resolver := DefaultMetadataResolver.(type) {
 	case LocalMetadataResolver:
 		res, _, err = resolver.resolveResponsePayloadWithoutTrustMarks(resolveRequest)
+	case SmartRemoteMetadataResolver:
+		res, err = resolver.resolveResponsePayloadWithoutTrustMarks(resolveRequest)
 	default:
 		res, err = DefaultMetadataResolver.ResolveResponsePayload(resolveRequest)
 	}
-- 
2.43.0


From 82795c93a8c07d617c3a6a027399bd64598cb297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 41/53] fix: accept configured trust mark jwts without
 verification keys

---
 trustmark_refresher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index 7fac429..b9abb5d 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -45,7 +45,7 @@ func (c *EntityConfigurationTrustMarkConfig) Verify(
 	}
 
 	if c.JWT != "" {
-		parsed, err := jwt.Parse([]byte(c.JWT))
+		parsed, err := jwt.ParseInsecure([]byte(c.JWT))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From eb5ae9ae91f1856f55df66208c931b21a0ae0e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 42/53] fix: do not cache an entry forever that expired one
 nanosecond ago

---
 cache/cache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index 635d577..8ccc02d 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -54,6 +54,10 @@ func (c cacheWrapper) Set(key string, value any, expiration time.Duration) error
 	if err != nil {
 		return err
 	}
+	if expiration < 0 {
+		// already expired; gocache would store an entry with a ttl of -1 without any expiration
+		expiration = 0
+	}
 	c.c.SetWithTTL(key, data, expiration)
 	return nil
 }
-- 
2.43.0


From 811f80d4c3b2d7d9f0b040445c28afdf7c8dd3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 43/53] fix: send the name query to remote collection endpoints
 under its parameter name

---
 apimodel/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apimodel/collection.go b/apimodel/collection.go
index 40614c6..73b6d93 100644
--- a/apimodel/collection.go
+++ b/apimodel/collection.go
@@ -7,6 +7,6 @@ type EntityCollectionRequest struct {
 	TrustMarkTypes []string `json:"trust_mark_type" form:"trust_mark_type" query:"trust_mark_type" url:"trust_mark_type"`
 	TrustAnchor    string   `json:"trust_anchor" form:"trust_anchor" query:"trust_anchor" url:"trust_anchor"`
 	EntityTypes    []string `json:"entity_type" form:"entity_type" query:"entity_type" url:"entity_type"`
-	NameQuery      string   `json:"name_query" form:"name_query" query:"name_query"`
+	NameQuery      string   `json:"name_query" form:"name_query" query:"name_query" url:"name_query"`
 	Claims         []string `json:"claims" form:"claims" query:"claims" url:"claims"`
 }
-- 
2.43.0


From 4351144d253a7a65c1e0c42dce2eec8a1661ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 44/53] fix: collect entities if any of their trust marks of a
 requested type is valid

---
 discovery.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/discovery.go b/discovery.go
index 52fb2c2..eb7b9ef 100644
--- a/discovery.go
+++ b/discovery.go
@@ -322,17 +322,23 @@ func (d *SimpleEntityCollector) collect(
 							}
 
 							for _, trustMarkType := range req.TrustMarkTypes {
-								trustMarkInfo := entityConfig.TrustMarks.forSubject(subordinateID).FindByID(trustMarkType)
-								if trustMarkInfo == nil {
-									includeEntity = false
-									break
-								}
 								taOnce.Do(
 									func() {
 										ta, taErr = GetEntityConfiguration(req.TrustAnchor)
 									},
 								)
-								if taErr != nil || trustMarkInfo.VerifyFederation(&ta.EntityStatementPayload) != nil {
+								if taErr != nil {
+									includeEntity = false
+									break
+								}
+								// an entity might have several trust marks of that type, not all of which must be valid
+								trustMarkInfo := entityConfig.TrustMarks.forSubject(subordinateID).Find(
+									func(info TrustMarkInfo) bool {
+										return info.TrustMarkType == trustMarkType &&
+											info.VerifyFederation(&ta.EntityStatementPayload) == nil
+									},
+								)
+								if trustMarkInfo == nil {
 									includeEntity = false
 									break
 								}
-- 
2.43.0


From d853959a8de865026485e7cf05f6f05b6ba599a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 45/53] fix: preserve which metadata parameters were set when
 caching metadata

---
 metadata.go | 60 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/metadata.go b/metadata.go
index 691ad20..66127fc 100644
--- a/metadata.go
+++ b/metadata.go
@@ -9,6 +9,7 @@ import (
 	"unsafe"
 
 	"github.com/pkg/errors"
+	"github.com/vmihailenco/msgpack/v5"
 )
 
 // Metadata is a type for holding the different metadata types
@@ -23,6 +24,65 @@ type Metadata struct {
 	Extra map[string]any `json:"-"`
 }
 
+// metadataExported is used to (un)marshal Metadata with msgpack; it additionally holds the information which metadata
+// parameters were set
+type metadataExported struct {
+	metadataValues
+	WasSet map[string]map[string]bool
+}
+
+type metadataValues Metadata
+
+func (m *metadataValues) wasSet() map[string]*map[string]bool {
+	wasSet := make(map[string]*map[string]bool)
+	if m.OpenIDProvider != nil {
+		wasSet["openid_provider"] = &m.OpenIDProvider.wasSet
+	}
+	if m.RelyingParty != nil {
+		wasSet["openid_relying_party"] = &m.RelyingParty.wasSet
+	}
+	if m.OAuthAuthorizationServer != nil {
+		wasSet["oauth_authorization_server"] = &m.OAuthAuthorizationServer.wasSet
+	}
+	if m.OAuthClient != nil {
+		wasSet["oauth_client"] = &m.OAuthClient.wasSet
+	}
+	if m.OAuthProtectedResource != nil {
+		wasSet["oauth_resource"] = &m.OAuthProtectedResource.wasSet
+	}
+	if m.FederationEntity != nil {
+		wasSet["federation_entity"] = &m.FederationEntity.wasSet
+	}
+	return wasSet
+}
+
+// MarshalMsgpack implements the msgpack.Marshaler interface for usage with caching
+func (m Metadata) MarshalMsgpack() ([]byte, error) {
+	mm := metadataExported{
+		metadataValues: metadataValues(m),
+		WasSet:         make(map[string]map[string]bool),
+	}
+	for entityType, wasSet := range mm.metadataValues.wasSet() {
+		mm.WasSet[entityType] = *wasSet
+	}
+	return msgpack.Marshal(mm)
+}
+
+// UnmarshalMsgpack implements the msgpack.Unmarshaler interface for usage with caching
+func (m *Metadata) UnmarshalMsgpack(data []byte) error {
+	mm := metadataExported{metadataValues: metadataValues(*m)}
+	if err := msgpack.Unmarshal(data, &mm); err != nil {
+		return errors.WithStack(err)
+	}
+	if mm.WasSet != nil {
+		for entityType, wasSet := range mm.metadataValues.wasSet() {
+			*wasSet = mm.WasSet[entityType]
+		}
+	}
+	*m = Metadata(mm.metadataValues)
+	return nil
+}
+
 // DisplayNameGuesser is an interface for types to return a (guessed) display name
 type DisplayNameGuesser interface {
 	GuessDisplayName() string
-- 
2.43.0


From c06d85a1b238986829122b40130c9da32c5d3c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 46/53] fix: marshal resolve responses with an empty payload

---
 trustresolver.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index a382435..18ea325 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -73,8 +73,11 @@ func (r ResolveResponse) MarshalJSON() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	additional[0] = ','
-	return extraMarshalHelper(append(payload[:len(payload)-1], additional...), r.Extra)
+	if len(payload) > len("{}") {
+		additional[0] = ','
+		additional = append(payload[:len(payload)-1], additional...)
+	}
+	return extraMarshalHelper(additional, r.Extra)
 }
 
 // UnmarshalJSON implements the json.Unmarshaler interface.
-- 
2.43.0


From bfbe358706db768aa51c2e1feebbcfc96c47c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 47/53] fix: marshal trust mark specs as yaml

---
 entitystatement.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/entitystatement.go b/entitystatement.go
index 816bbe3..501bbac 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -108,12 +108,12 @@ func extraMarshalHelper(explicitFields []byte, extra map[string]interface{}) ([]
 }
 
 func yamlExtraMarshalHelper(explicitFields []byte, extra map[string]interface{}) (any, error) {
-	var m map[string]*yaml.Node
+	var m map[string]yaml.Node
 	if err := yaml.Unmarshal(explicitFields, &m); err != nil {
 		return nil, err
 	}
 	for k, v := range extra {
-		node := &yaml.Node{}
+		var node yaml.Node
 		if err := node.Encode(v); err != nil {
 			return nil, errors.WithStack(err)
 		}
-- 
2.43.0


From e73cb0209601ee7d2d2437543ac1bd616ce2a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 48/53] fix: do not remember unverified trust chains as the
 valid chains

---
 trustresolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index 18ea325..1993b04 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -292,6 +292,10 @@ func (r TrustResolver) Chains() (chains TrustChains) {
 	if chains == nil {
 		return nil
 	}
+	if !r.trustTree.signaturesVerified {
+		// the chains in the cache are returned as valid chains
+		return
+	}
 	if err = r.cacheSetTrustChains(chains); err != nil {
 		internal.Log(err.Error())
 	}
-- 
2.43.0


From 10c6e30788fa4b1424cea2ddde09f224612afec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 49/53] fix: do not take over the verification state of a
 previous tree for a trust tree from the cache

---
 trustresolver.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trustresolver.go b/trustresolver.go
index 1993b04..68734c4 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -333,9 +333,13 @@ func (r *TrustResolver) cacheGetTrustTree() (
 	if err != nil {
 		return false, err
 	}
+	var tree trustTree // decoding into r.trustTree would keep the verification state of a previous tree
 	set, err = cache.Get(
-		cache.Key(cache.KeyTrustTree, string(hash)), &r.trustTree,
+		cache.Key(cache.KeyTrustTree, string(hash)), &tree,
 	)
+	if set && err == nil {
+		r.trustTree = tree
+	}
 	return
 }
 func (r TrustResolver) cacheSetTrustTree() error {
-- 
2.43.0


From 350be990c807124559ddf1b7827697564d5b6a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 50/53] fix: do not return the chains of a previous resolution
 if the starting entity cannot be resolved

---
 trustresolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trustresolver.go b/trustresolver.go
index 68734c4..2422102 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -243,6 +243,7 @@ func (r *TrustResolver) Resolve() {
 		internal.Log("Obtained trust tree from cache")
 		return
 	}
+	r.trustTree = trustTree{} // do not keep the tree of a previous resolution
 	if r.StartingEntity == "" {
 		return
 	}
-- 
2.43.0


From 619ad1842b8b5a69f05de3ce45c19fcd4095d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:11 +0000
Subject: [PATCH 51/53] fix: ignore trust chains that could not be decoded from
 the cache

---
 trustresolver.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 2422102..c605d6d 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -285,8 +285,7 @@ func (r TrustResolver) Chains() (chains TrustChains) {
 	chains, set, err := r.cacheGetTrustChains()
 	if err != nil {
 		internal.Log(err.Error())
-	}
-	if set {
+	} else if set {
 		return chains
 	}
 	chains = r.trustTree.chains()
-- 
2.43.0


From 1fbe341ce5910287067141a65fda2a508d9fe750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 52/53] fix: values with repeated elements were taken as equal
 to others when merging metadata policies

---
 internal/utils/slices.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index a57f03b..5e517b6 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -213,7 +213,7 @@ func SliceEqual(a, b interface{}) bool {
 		return false
 	}
 	for i := 0; i < aV.Len(); i++ {
-		if !ReflectSliceContains(aV.Index(i).Interface(), bs) {
+		if !ReflectSliceContains(aV.Index(i).Interface(), bs) || !ReflectSliceContains(bV.Index(i).Interface(), as) {
 			return false
 		}
 	}
-- 
2.43.0


From 58364b4b6a35da4992cf7bf2824a8ada0323b834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:53 +0000
Subject: [PATCH 53/53] fix: do not crash on null entries when collecting
 entities with verified chains

---
 discovery.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discovery.go b/discovery.go
index eb7b9ef..8e6f246 100644
--- a/discovery.go
+++ b/discovery.go
@@ -565,6 +565,9 @@ type EntityCollectionFilterVerifiedChains struct {
 
 // Filter implements the EntityCollectionFilter interface
 func (f EntityCollectionFilterVerifiedChains) Filter(e *CollectedEntity) bool {
+	if e == nil {
+		return false
+	}
 	confirmedValid, _ := DefaultMetadataResolver.ResolvePossible(
 		apimodel.ResolveRequest{
 			Subject:     e.EntityID,
-- 
2.43.0

