From e32aedd2fc82da4c7dfc267e2ee1067d2bc9888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:11 +0000
Subject: [PATCH 001/173] fix: enforce the Int8/16/32/64 ranges (untyped limits
 arrive as int and were ignored)

---
 decimal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decimal.go b/decimal.go
index 00c00dd..91943aa 100644
--- a/decimal.go
+++ b/decimal.go
@@ -72,6 +72,9 @@ func DecimalValue(val *Decimal, defval interface{}) *Decimal {
 		switch n := defval.(type) {
 		case *Decimal:
 			return n
+		case int:
+			d, _ := ParseDecimal(fmt.Sprint(n))
+			return d
 		case int64:
 			d, _ := ParseDecimal(fmt.Sprint(n))
 			return d
-- 
2.43.0


From 69992c9b631c89770914890bf7f8e53e2e681f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:11 +0000
Subject: [PATCH 002/173] fix: reject fractional values for the integer types

---
 model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model.go b/model.go
index 01bb72a..bd7c72c 100644
--- a/model.go
+++ b/model.go
@@ -299,6 +299,9 @@ func (model *Model) ValidateNumber(context string, td *TypeSpec, value interface
 				maxval = DecimalValue(td.Max, math.MaxInt8)
 			}
 			nval := n.AsBigFloat()
+			if strings.HasPrefix(td.Type, "Int") && !nval.IsInt() {
+				return fmt.Errorf("%s: Not an integer: %v", context, n)
+			}
 			if minval != nil {
 				nmin := minval.AsBigFloat()
 				if nval.Cmp(nmin) < 0 {
-- 
2.43.0


From 1070c8262ea1c6ce804ec5a296e484d73c4404a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:11 +0000
Subject: [PATCH 003/173] fix: validating a value against a Union recursed
 without end

---
 model.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/model.go b/model.go
index bd7c72c..d9cb909 100644
--- a/model.go
+++ b/model.go
@@ -192,6 +192,8 @@ func (model *Model) ValidateAgainstTypeSpec(context string, td *TypeSpec, value
 		return model.ValidateUnitValue(context, td, value)
 	case "UUID":
 		return model.ValidateUUID(context, td, value)
+	case "Union":
+		return model.ValidateUnion(context, td, value)
 	case "Bytes":
 		//fixme
 		return nil
@@ -356,6 +358,19 @@ func (model *Model) ValidateStruct(context string, td *TypeSpec, value interface
 	return nil
 }
 
+func (model *Model) ValidateUnion(context string, td *TypeSpec, value interface{}) error {
+	m, ok := value.(map[string]interface{})
+	if !ok || len(m) != 1 {
+		return fmt.Errorf("%s: Not a valid Union, exactly one variant must be present: %v", context, Pretty(value))
+	}
+	for _, variant := range td.Variants {
+		if v, ok := m[variant.Name]; ok {
+			return model.ValidateAgainstTypeSpec(context+"."+variant.Name, &variant.TypeSpec, v)
+		}
+	}
+	return fmt.Errorf("%s: Not a valid Union, no such variant: %v", context, Pretty(value))
+}
+
 func (model *Model) ValidateArray(context string, td *TypeSpec, value interface{}) error {
 	switch a := value.(type) {
 	case []interface{}:
-- 
2.43.0


From 61cbb32f64a6c4f681431140b72e1507f3b189d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:11 +0000
Subject: [PATCH 004/173] fix: accept UnitValues whose number has one or two
 digits, and plain string values

---
 model.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/model.go b/model.go
index d9cb909..d62b847 100644
--- a/model.go
+++ b/model.go
@@ -237,22 +237,24 @@ func (model *Model) ValidateUUID(context string, td *TypeSpec, value interface{}
 }
 
 func (model *Model) ValidateUnitValue(context string, td *TypeSpec, value interface{}) error {
+	var s string
 	switch sp := value.(type) {
 	case *string:
-		s := *sp
-		n := strings.Index(s, " ")
-		if n >= 3 {
-			val := s[:n]
-			unit := s[n+1:]
-			nval, err := ParseDecimal(val)
+		s = *sp
+	case string:
+		s = sp
+	}
+	if n := strings.Index(s, " "); n > 0 {
+		val := s[:n]
+		unit := s[n+1:]
+		nval, err := ParseDecimal(val)
+		if err == nil {
+			err = model.Validate(context+".value", td.Value, nval)
 			if err == nil {
-				err = model.Validate(context+".value", td.Value, nval)
-				if err == nil {
-					err = model.Validate(context+".unit", td.Unit, unit)
-				}
+				err = model.Validate(context+".unit", td.Unit, unit)
 			}
-			return err
 		}
+		return err
 	}
 	return fmt.Errorf("%s: Not a valid UnitValue: %v", context, Pretty(value))
 }
-- 
2.43.0


From 53de8a3a8cb6d35e5a2b02a534c25809108690bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:11 +0000
Subject: [PATCH 005/173] fix: accept plain string and Timestamp values for the
 Timestamp type, as for the other string types

---
 model.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/model.go b/model.go
index d62b847..df084bd 100644
--- a/model.go
+++ b/model.go
@@ -476,12 +476,15 @@ func (model *Model) ValidateString(context string, td *TypeSpec, val interface{}
 }
 
 func (model *Model) ValidateTimestamp(tname string, td *TypeSpec, val interface{}) error {
-	if _, ok := val.(*Timestamp); ok {
+	switch s := val.(type) {
+	case *Timestamp, Timestamp:
 		return nil
-	}
-	if s, ok := val.(*string); ok {
-		_, err := ParseTimestamp(*s)
-		if err == nil {
+	case *string:
+		if _, err := ParseTimestamp(*s); err == nil {
+			return nil
+		}
+	case string:
+		if _, err := ParseTimestamp(s); err == nil {
 			return nil
 		}
 	}
-- 
2.43.0


From d694c2e3ec7ec89bade94d2049eeeaef540eef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 006/173] fix: validate the keys of a Map against its key type

---
 model.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/model.go b/model.go
index df084bd..47a1b50 100644
--- a/model.go
+++ b/model.go
@@ -407,6 +407,17 @@ func (model *Model) ValidateArray(context string, td *TypeSpec, value interface{
 func (model *Model) ValidateMap(context string, td *TypeSpec, value interface{}) error {
 	switch a := value.(type) {
 	case map[string]interface{}:
+		if tdk := model.FindType(td.Keys); tdk != nil {
+			switch tdk.Type {
+			case "String", "Enum", "UUID", "Timestamp":
+				for k := range a {
+					err := model.ValidateAgainstTypeSpec(fmt.Sprintf("%s[%q]", context, k), &tdk.TypeSpec, k)
+					if err != nil {
+						return err
+					}
+				}
+			}
+		}
 		if td.Items != "Any" {
 			tdi := model.FindType(td.Items)
 			if tdi == nil {
-- 
2.43.0


From f97f995eaf341fb364d8b538c28ca1c98e2c8bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 007/173] fix: reject UUIDs that are not made of hexadecimal
 digits

---
 uuid.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uuid.go b/uuid.go
index b509003..ef02695 100644
--- a/uuid.go
+++ b/uuid.go
@@ -3,6 +3,7 @@ package sadl
 import (
 	"encoding/json"
 	"fmt"
+	"strings"
 )
 
 type UUID string
@@ -29,5 +30,10 @@ func ParseUUID(text string) UUID {
 	if text[8] != '-' || text[13] != '-' || text[18] != '-' || text[23] != '-' {
 		return ""
 	}
+	for i, ch := range text {
+		if i != 8 && i != 13 && i != 18 && i != 23 && !strings.ContainsRune("0123456789abcdefABCDEF", ch) {
+			return ""
+		}
+	}
 	return UUID(text)
 }
-- 
2.43.0


From c9329c791b394c862dbedea26a8ecf43617ee827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 008/173] fix: reject infinities as Decimal numbers, they have
 no JSON representation

---
 decimal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decimal.go b/decimal.go
index 91943aa..39db9b2 100644
--- a/decimal.go
+++ b/decimal.go
@@ -31,7 +31,7 @@ func (d *Decimal) UnmarshalJSON(b []byte) error {
 
 func ParseDecimal(text string) (*Decimal, error) {
 	num, _, err := big.ParseFloat(text, 10, DecimalPrecision, big.ToNearestEven)
-	if err != nil {
+	if err != nil || num.IsInf() {
 		return nil, fmt.Errorf("Bad Decimal number: %s", text)
 	}
 	return &Decimal{Float: *num}, nil
-- 
2.43.0


From e1df72b463ae7de273fe55c7e3bda7afa3f3b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 009/173] fix: format Timestamps in UTC and with a four digit
 year, as their representation claims

---
 timestamp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timestamp.go b/timestamp.go
index 6eecf68..a458cc3 100644
--- a/timestamp.go
+++ b/timestamp.go
@@ -11,12 +11,13 @@ type Timestamp struct {
 	time.Time
 }
 
-const RFC3339Milli = "%d-%02d-%02dT%02d:%02d:%02d.%03dZ"
+const RFC3339Milli = "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ"
 
 func (ts Timestamp) String() string {
 	if ts.IsZero() {
 		return ""
 	}
+	ts.Time = ts.UTC()
 	return fmt.Sprintf(RFC3339Milli, ts.Year(), ts.Month(), ts.Day(), ts.Hour(), ts.Minute(), ts.Second(), ts.Nanosecond()/1000000)
 }
 
-- 
2.43.0


From 93c60b96937aeb6c187736efda10c6f5176b9d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 010/173] fix: escape the unit when a UnitValue is encoded as a
 JSON string

---
 unitvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unitvalue.go b/unitvalue.go
index e630886..15be343 100644
--- a/unitvalue.go
+++ b/unitvalue.go
@@ -40,7 +40,7 @@ func NewUnitValue(value float64, unit string) *UnitValue {
 }
 
 func (q *UnitValue) MarshalJSON() ([]byte, error) {
-	return []byte("\"" + q.String() + "\""), nil
+	return json.Marshal(q.String())
 }
 
 func (q *UnitValue) UnmarshalJSON(b []byte) error {
-- 
2.43.0


From 492b01b9effc55a82c382e436c1a85a6ee246b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 011/173] fix: a nested Data lookup with a missing intermediate
 key finds nothing

---
 data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data.go b/data.go
index b72f5ad..c0aa172 100644
--- a/data.go
+++ b/data.go
@@ -112,6 +112,8 @@ func (data *Data) get(keys []string) interface{} {
 					} else {
 						return v
 					}
+				} else {
+					return nil
 				}
 			}
 		}
-- 
2.43.0


From f414a8986058183a1fac2af7a72a3d18ee5a581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 012/173] fix: report a failure to flush a generated file

---
 generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 92d1311..0c2228b 100644
--- a/generator.go
+++ b/generator.go
@@ -75,7 +75,9 @@ func (gen *Generator) WriteFile(path string, content string) {
 	defer f.Close()
 	writer := bufio.NewWriter(f)
 	_, gen.Err = writer.WriteString(content)
-	writer.Flush()
+	if err = writer.Flush(); gen.Err == nil {
+		gen.Err = err
+	}
 }
 
 func (gen *Generator) EmitTemplate(name string, tmplSource string, data interface{}, funcMap template.FuncMap) {
-- 
2.43.0


From 4e0c726c5e7b49aa20a7ce940258a973b79c29ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 013/173] fix: list annotations in a stable order

---
 misc.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misc.go b/misc.go
index 608b482..3ba1c1c 100644
--- a/misc.go
+++ b/misc.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 )
 
@@ -183,6 +184,7 @@ func AnnotationsAsString(annos map[string]string) string {
 		}
 	}
 	if len(opts) > 0 {
+		sort.Strings(opts)
 		return " (" + strings.Join(opts, ", ") + ")"
 	}
 	return ""
-- 
2.43.0


From b090a2b99193dc5f41a703d0c6709ad2293c05a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:58 +0000
Subject: [PATCH 014/173] fix: converting inline enums must not define the same
 type twice or leave dangling references

---
 model.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/model.go b/model.go
index 47a1b50..5241292 100644
--- a/model.go
+++ b/model.go
@@ -631,7 +631,6 @@ func (model *Model) FindExampleType(ex *ExampleDef) (*TypeSpec, error) {
 // This produces an error if name conflicts cannot be resolved.
 func (model *Model) ConvertInlineEnums() error {
 	//	refs := make(map[string]*TypeSpec, 0)
-	var tds []*TypeDef
 	for _, td := range model.Types {
 		switch td.Type {
 		case "Struct":
@@ -651,18 +650,16 @@ func (model *Model) ConvertInlineEnums() error {
 							//Alternatively, could prefix the struct type name to the new type `td.Name + tname` to make it unique. Steill not foolproof.
 							return fmt.Errorf("cannot refactor, duplicate type names for non-equivalent types: %s and %s\n", Pretty(prev), Pretty(fdef))
 						}
+					} else {
+						model.Types = append(model.Types, ntd)
+						model.typeIndex[tname] = ntd
 					}
 					var blank TypeSpec
 					fdef.TypeSpec = blank
 					fdef.Type = tname
-					tds = append(tds, ntd)
 				}
 			}
 		}
 	}
-	for _, td := range tds {
-		model.Types = append(model.Types, td)
-		model.typeIndex[td.Name] = td
-	}
 	return nil
 }
-- 
2.43.0


From 07b5fba27a7cca1b6628864e7f51a5f4bb7f8233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:58 +0000
Subject: [PATCH 015/173] fix: compare constraints and struct fields by value
 when deciding that types are equivalent

---
 model.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/model.go b/model.go
index 5241292..2b57828 100644
--- a/model.go
+++ b/model.go
@@ -64,9 +64,23 @@ func (model *Model) EquivalentTypesByName(tname1, tname2 string) bool {
 	}
 	td1 := model.FindType(tname1)
 	td2 := model.FindType(tname2)
+	if td1 == nil || td2 == nil {
+		return false
+	}
 	return model.EquivalentTypes(&td1.TypeSpec, &td2.TypeSpec)
 }
 
+func equalSizes(ts1, ts2 *TypeSpec) bool {
+	equal := func(n1, n2 *int64) bool {
+		return n1 == n2 || (n1 != nil && n2 != nil && *n1 == *n2)
+	}
+	return equal(ts1.MinSize, ts2.MinSize) && equal(ts1.MaxSize, ts2.MaxSize)
+}
+
+func equalDecimals(d1, d2 *Decimal) bool {
+	return d1 == d2 || (d1 != nil && d2 != nil && d1.Cmp(&d2.Float) == 0)
+}
+
 func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 	if ts1.Type != ts2.Type {
 		return false
@@ -74,7 +88,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 	//TODO: check annotations
 	switch ts1.Type {
 	case "String":
-		if ts1.Pattern != ts2.Pattern || ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize || len(ts1.Values) != len(ts2.Values) {
+		if ts1.Pattern != ts2.Pattern || !equalSizes(ts1, ts2) || len(ts1.Values) != len(ts2.Values) {
 			return false
 		}
 		if ts1.Reference != ts2.Reference {
@@ -99,8 +113,14 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 		if len(ts1.Fields) != len(ts2.Fields) {
 			return false
 		}
+		for i, f1 := range ts1.Fields {
+			f2 := ts2.Fields[i]
+			if f1.Name != f2.Name || f1.Required != f2.Required || f1.Items != f2.Items || f1.Keys != f2.Keys || !model.EquivalentTypes(&f1.TypeSpec, &f2.TypeSpec) {
+				return false
+			}
+		}
 	case "Bytes":
-		if ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize {
+		if !equalSizes(ts1, ts2) {
 			return false
 		}
 	case "UnitValue":
@@ -111,7 +131,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Array", "Map":
-		if ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize {
+		if !equalSizes(ts1, ts2) {
 			return false
 		}
 		if !model.EquivalentTypesByName(ts1.Items, ts2.Items) {
@@ -121,7 +141,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
-		if ts1.Min != ts2.Min || ts1.Max != ts2.Max {
+		if !equalDecimals(ts1.Min, ts2.Min) || !equalDecimals(ts1.Max, ts2.Max) {
 			return false
 		}
 	case "Enum":
@@ -145,10 +165,10 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 		}
 		m := make(map[string]bool, 0)
 		for _, v := range ts1.Variants {
-			m[v.Type] = true
+			m[v.Name+" "+v.Type] = true
 		}
 		for _, v := range ts2.Variants {
-			if _, ok := m[v.Type]; !ok {
+			if _, ok := m[v.Name+" "+v.Type]; !ok {
 				return false
 			}
 		}
-- 
2.43.0


From e24a83871873c8a2358295ed59d4b92d0a3a9b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:19 +0000
Subject: [PATCH 016/173] fix: an example for the response of an action that
 expects none is an error, not a crash

---
 model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 2b57828..478c2b6 100644
--- a/model.go
+++ b/model.go
@@ -599,7 +599,7 @@ func (model *Model) FindExampleType(ex *ExampleDef) (*TypeSpec, error) {
 		} else if strings.HasSuffix(theType, "Response") {
 			httpName := Uncapitalize(theType[:len(theType)-len("Response")])
 			h := model.FindHttp(httpName)
-			if h != nil {
+			if h != nil && h.Expected != nil {
 				if len(lst) > 0 {
 					var tmp *TypeSpec
 					fname := lst[0]
-- 
2.43.0


From 5ded7d533484b25032f9f0fd3d783074487fe840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:02 +0000
Subject: [PATCH 017/173] fix: a path that cannot be examined is not an already
 existing file, report the failure to write it

---
 generator.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/generator.go b/generator.go
index 0c2228b..71a9c4b 100644
--- a/generator.go
+++ b/generator.go
@@ -110,10 +110,8 @@ func (gen *Generator) Uncapitalize(s string) string {
 }
 
 func (gen *Generator) FileExists(path string) bool {
-	if _, err := os.Stat(path); os.IsNotExist(err) {
-		return false
-	}
-	return true
+	_, err := os.Stat(path)
+	return err == nil
 }
 
 func (gen *Generator) FormatComment(indent, comment string, maxcol int, extraPad bool) string {
-- 
2.43.0


From 0321da62e5575ade73025bc19c49527a8bdaa29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:02 +0000
Subject: [PATCH 018/173] fix: writing another file must not forget the failure
 of an earlier one

---
 generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator.go b/generator.go
index 71a9c4b..e19a8cb 100644
--- a/generator.go
+++ b/generator.go
@@ -62,6 +62,9 @@ func (gen *Generator) End() string {
 }
 
 func (gen *Generator) WriteFile(path string, content string) {
+	if gen.Err != nil {
+		return
+	}
 	if !gen.Config.GetBool("force-overwrite") && gen.FileExists(path) {
 		//if debug, echo it anyway?
 		fmt.Printf("[%s already exists, not overwriting]\n", path)
-- 
2.43.0


From bb8f39d382120feae9f8be73b66050d523b59fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 019/173] fix: export PATCH, HEAD and OPTIONS actions to
 OpenAPI, they were dropped

---
 openapi/export_openapi.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index aa4b750..8126ce8 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -136,6 +136,23 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
 			}
 			pi.Post = op
+		case "PATCH":
+			if pi.Patch != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Patch = op
+		case "HEAD":
+			if pi.Head != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Head = op
+		case "OPTIONS":
+			if pi.Options != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Options = op
+		default:
+			return nil, fmt.Errorf("HTTP method cannot be exported (%s %s)", hdef.Method, p)
 		}
 		for _, in := range hdef.Inputs {
 			param := &Parameter{
-- 
2.43.0


From 7015e7f59df2bd998e3604e35d6e3ada2975fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 020/173] fix: exporting an array of Float64 to OpenAPI
 panicked

---
 openapi/export_openapi.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 8126ce8..6f4c109 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -572,9 +572,6 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		}
 		return sch, nil
 	case "Int32", "Int16", "Int8", "Int64", "Float32", "Float64", "Decimal":
-		if td.Type == "Float64" && name != "" {
-			panic("here? " + name + " -> " + sadl.Pretty(td))
-		}
 		stype, sformat, scomment := oasNumericEquivalent(td.Type)
 		sch := &Schema{
 			Type:        stype,
-- 
2.43.0


From 4a065e3007201a2827a4b9cd225aa48a5881b195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 021/173] fix: OpenAPI export left references to schemas that
 do not exist (inline enums, Any, unions, base type variants, map items)

---
 openapi/export_openapi.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 6f4c109..504b451 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -470,8 +470,9 @@ func (gen *Generator) exportUnionTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		Description: td.Comment,
 	}
 	for _, vd := range td.Variants {
-		v := &Schema{
-			Ref: "#/components/schemas/" + vd.Type,
+		v, err := gen.oasSchema(&vd.TypeSpec, "")
+		if err != nil {
+			return nil, err
 		}
 		schema.OneOf = append(schema.OneOf, v)
 	}
@@ -494,7 +495,7 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 
 func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
 	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, "")
+	itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
 	if err != nil {
 		return nil, err
 	}
@@ -631,6 +632,15 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		}
 		return tr, nil
 	case "Enum":
+		if name == "" {
+			return gen.exportEnumTypeDef(&sadl.TypeDef{TypeSpec: *td})
+		}
+		return &Schema{
+			Ref: "#/components/schemas/" + name,
+		}, nil
+	case "Any":
+		return &Schema{}, nil
+	case "Union":
 		return &Schema{
 			Ref: "#/components/schemas/" + name,
 		}, nil
@@ -648,7 +658,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 	case "Map":
 		//note: keys are always strings
 		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, "")
+		itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 9c711016476910ef0c0c7fbbab737982b1ca8867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:59 +0000
Subject: [PATCH 022/173] fix: OpenAPI export lost the allowed values of
 strings used in fields, items and parameters

---
 openapi/export_openapi.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 504b451..46d50bc 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -512,13 +512,6 @@ func (gen *Generator) exportStringTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		return nil, err
 	}
 	otd.Description = td.Comment
-	if len(td.Values) > 0 {
-		e := make([]interface{}, 0)
-		for _, s := range td.Values {
-			e = append(e, s)
-		}
-		otd.Enum = e
-	}
 	return otd, nil
 }
 
@@ -609,6 +602,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			tmp := uint64(*td.MaxSize)
 			tr.MaxLength = &tmp
 		}
+		for _, s := range td.Values {
+			tr.Enum = append(tr.Enum, s)
+		}
 		return tr, nil
 	case "Timestamp":
 		tr := &Schema{
-- 
2.43.0


From 4889090ffd57b58c34dccdaf31ae535ae5107cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:59 +0000
Subject: [PATCH 023/173] fix: OpenAPI export lost the size limits of arrays
 and maps

---
 openapi/export_openapi.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 46d50bc..608dc83 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -490,6 +490,7 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		Description: td.Comment,
 		Items:       itemSchema,
 	}
+	setItemLimits(schema, &td.TypeSpec)
 	return schema, nil
 }
 
@@ -499,11 +500,32 @@ func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &Schema{
+	schema := &Schema{
 		Type:                 "object",
 		Description:          td.Comment,
 		AdditionalProperties: itemSchema,
-	}, nil
+	}
+	setItemLimits(schema, &td.TypeSpec)
+	return schema, nil
+}
+
+func setItemLimits(schema *Schema, ts *sadl.TypeSpec) {
+	var min uint64
+	var max *uint64
+	if ts.MinSize != nil {
+		min = uint64(*ts.MinSize)
+	}
+	if ts.MaxSize != nil {
+		tmp := uint64(*ts.MaxSize)
+		max = &tmp
+	}
+	if schema.Type == "array" {
+		schema.MinItems = min
+		schema.MaxItems = max
+	} else {
+		schema.MinProps = min
+		schema.MaxProps = max
+	}
 }
 
 func (gen *Generator) exportStringTypeDef(td *sadl.TypeDef) (*Schema, error) {
@@ -650,6 +672,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			Type:  "array",
 			Items: itemSchema,
 		}
+		setItemLimits(tr, td)
 		return tr, nil
 	case "Map":
 		//note: keys are always strings
@@ -662,6 +685,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			Type:                 "object",
 			AdditionalProperties: itemSchema,
 		}
+		setItemLimits(otd, td)
 		return otd, nil
 	case "Struct":
 		if name != "" {
-- 
2.43.0


From 53d57c167b369d29c99a7edac6c1ff620b0b6fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:59 +0000
Subject: [PATCH 024/173] fix: OpenAPI export lost which fields of a nested
 struct are required

---
 openapi/export_openapi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 608dc83..6d23ca1 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -703,6 +703,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 					return nil, err
 				}
 				f[fd.Name] = fieldSchema
+				if fd.Required {
+					sch.Required = append(sch.Required, fd.Name)
+				}
 			}
 			sch.Properties = f
 			return sch, nil
-- 
2.43.0


From b530b6af54d337ca5e7a9c392a0a76a4f59d2b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:59 +0000
Subject: [PATCH 025/173] fix: OpenAPI export lost the comments of fields and
 of numeric types

---
 openapi/export_openapi.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 6d23ca1..5355952 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -406,6 +406,9 @@ func (gen *Generator) exportTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		return gen.exportEnumTypeDef(td)
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
 		stype, sformat, scomment := oasNumericEquivalent(td.Type)
+		if td.Comment != "" {
+			scomment = td.Comment
+		}
 		otd := &Schema{
 			Description: scomment,
 			Type:        stype,
@@ -457,8 +460,10 @@ func (gen *Generator) exportStructTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		if err != nil {
 			return nil, err
 		}
+		if fd.Comment != "" && tr.Ref == "" {
+			tr.Description = fd.Comment
+		}
 		properties[fd.Name] = tr
-
 	}
 	schema.Required = required
 	schema.Properties = properties
@@ -702,6 +707,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 				if err != nil {
 					return nil, err
 				}
+				if fd.Comment != "" && fieldSchema.Ref == "" {
+					fieldSchema.Description = fd.Comment
+				}
 				f[fd.Name] = fieldSchema
 				if fd.Required {
 					sch.Required = append(sch.Required, fd.Name)
-- 
2.43.0


From ca07b2dde318b863a4a999ae02899a0b02e5cf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:59 +0000
Subject: [PATCH 026/173] fix: OpenAPI export lost (or crashed on) examples of
 actions that share a path with another action

---
 openapi/export_openapi.go | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 5355952..fc44907 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -363,24 +363,10 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 
 func (gen *Generator) FindOperation(model *Model, opId string) *Operation {
 	for _, pathItem := range model.Paths {
-		var op *Operation
-		if pathItem.Get != nil {
-			op = pathItem.Get
-		} else if pathItem.Put != nil {
-			op = pathItem.Put
-		} else if pathItem.Delete != nil {
-			op = pathItem.Delete
-		} else if pathItem.Post != nil {
-			op = pathItem.Post
-		} else if pathItem.Head != nil {
-			op = pathItem.Head
-		} else if pathItem.Patch != nil {
-			op = pathItem.Patch
-		} else {
-			panic("fix me")
-		}
-		if op.OperationId == opId {
-			return op
+		for _, op := range []*Operation{pathItem.Get, pathItem.Put, pathItem.Delete, pathItem.Post, pathItem.Head, pathItem.Patch, pathItem.Options} {
+			if op != nil && op.OperationId == opId {
+				return op
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From fdb6494c202a2285c9cdd8ff4c19b0d47406dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:48 +0000
Subject: [PATCH 027/173] fix: OpenAPI export attached examples of requests and
 responses by the wrong name, and crashed when there was no body

---
 openapi/export_openapi.go | 125 ++++++++++++++++++--------------------
 1 file changed, 59 insertions(+), 66 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index fc44907..8afe186 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -276,82 +276,45 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 			// I like the idea of have a complete request object (headers, path, query, and payload) all encapsulated nicely.
 			//   -> seems like I could use it in the API somehow. It really is what you need to abstract from the transport. Like RPC.
 			//todo: walk the compound name, install at the element if supported.
-			if strings.HasSuffix(ed.Target, "Request") {
-				hdefName := sadl.Uncapitalize(ed.Target[:len(ed.Target)-7])
-				op := gen.FindOperation(oas, hdefName)
-				if op != nil {
-					for k, v := range ed.Example.(map[string]interface{}) {
-						if k == "body" {
-							tmp := op.RequestBody.Content["application/json"]
+			hact, op, values := gen.findActionExample(oas, ed)
+			if op != nil && strings.HasSuffix(ed.Target, "Request") {
+				for _, in := range hact.Inputs {
+					v, ok := values[in.Name]
+					if !ok {
+						continue
+					}
+					source, name := "path", in.Name
+					if in.Query != "" {
+						source, name = "query", in.Query
+					} else if in.Header != "" {
+						source, name = "header", in.Header
+					} else if !in.Path {
+						addMediaExample(op.RequestBody.Content["application/json"], ed.Name, v)
+						continue
+					}
+					for _, param := range op.Parameters {
+						if param.In == source && param.Name == name {
 							if ed.Name == "" {
-								tmp.Example = v
+								param.Example = v
 							} else {
-								if tmp.Examples == nil {
-									tmp.Examples = make(map[string]*Example, 0)
+								if param.Examples == nil {
+									param.Examples = make(map[string]*Example, 0)
 								}
-								tmp.Examples[ed.Name] = &Example{
+								param.Examples[ed.Name] = &Example{
 									Value: v,
 								}
 							}
-						} else {
-							for _, param := range op.Parameters {
-								if param.Name == k {
-									if ed.Name == "" {
-										param.Example = v
-									} else {
-										if param.Examples == nil {
-											param.Examples = make(map[string]*Example, 0)
-										}
-										param.Examples[ed.Name] = &Example{
-											Value: v,
-										}
-									}
-								}
-							}
 						}
 					}
 				}
-			} else if strings.HasSuffix(ed.Target, "Response") {
-				hdefName := sadl.Uncapitalize(ed.Target[:len(ed.Target)-8])
-				op := gen.FindOperation(oas, hdefName)
-				if op != nil {
-					for k, v := range ed.Example.(map[string]interface{}) {
-						if k == "body" {
-							hact := model.FindHttp(hdefName)
-							//FIXME: somehow the example name must include the status to use here
-							//FIXME: currently the parser only handles Request and Response, not Exceptxxx
-							sstatus := fmt.Sprintf("%v", hact.Expected.Status)
-							tmp := op.Responses[sstatus].Content["application/json"]
-							if ed.Name == "" {
-								tmp.Example = v
-							} else {
-								if tmp.Examples == nil {
-									tmp.Examples = make(map[string]*Example, 0)
-								}
-								tmp.Examples[ed.Name] = &Example{
-									Value: v,
-								}
-							}
-
-						} else {
-							for _, param := range op.Parameters {
-								if param.Name == k {
-									if ed.Name == "" {
-										param.Example = v
-									} else {
-										if param.Examples == nil {
-											param.Examples = make(map[string]*Example, 0)
-										}
-										param.Examples[ed.Name] = &Example{
-											Value: v,
-										}
-									}
-								}
-							}
-						}
+			} else if op != nil {
+				//FIXME: somehow the example name must include the status to use here
+				//FIXME: currently the parser only handles Request and Response, not Exceptxxx
+				resp := op.Responses[fmt.Sprint(hact.Expected.Status)]
+				for _, out := range hact.Expected.Outputs {
+					if v, ok := values[out.Name]; ok && out.Header == "" {
+						addMediaExample(resp.Content["application/json"], ed.Name, v)
 					}
-				} else {
-					panic("no")
 				}
 			} else {
 				fmt.Fprintf(os.Stderr, "[warning: example not exported for %q\n", ed.Target)
@@ -361,6 +324,36 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 	return oas, nil
 }
 
+// the action, its exported operation, and the values by input or output name, if the example is for the request or response of an action
+func (gen *Generator) findActionExample(oas *Model, ed *sadl.ExampleDef) (*sadl.HttpDef, *Operation, map[string]interface{}) {
+	name := strings.TrimSuffix(ed.Target, "Request")
+	if name == ed.Target {
+		name = strings.TrimSuffix(ed.Target, "Response")
+	}
+	values, ok := ed.Example.(map[string]interface{})
+	if !ok || name == ed.Target || name == "" {
+		return nil, nil, nil
+	}
+	hact := gen.Model.FindHttp(sadl.Uncapitalize(name))
+	if hact == nil {
+		return nil, nil, nil
+	}
+	return hact, gen.FindOperation(oas, hact.Name), values
+}
+
+func addMediaExample(media *MediaType, name string, value interface{}) {
+	if name == "" {
+		media.Example = value
+	} else {
+		if media.Examples == nil {
+			media.Examples = make(map[string]*Example, 0)
+		}
+		media.Examples[name] = &Example{
+			Value: value,
+		}
+	}
+}
+
 func (gen *Generator) FindOperation(model *Model, opId string) *Operation {
 	for _, pathItem := range model.Paths {
 		for _, op := range []*Operation{pathItem.Get, pathItem.Put, pathItem.Delete, pathItem.Post, pathItem.Head, pathItem.Patch, pathItem.Options} {
-- 
2.43.0


From 3fc59b77b19e6552b01fa6d74197410584718055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:24 +0000
Subject: [PATCH 028/173] fix: exporting a recursive array or map type to
 OpenAPI overflowed the stack

---
 openapi/export_openapi.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 8afe186..d66a9ad 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -463,9 +463,25 @@ func (gen *Generator) exportUnionTypeDef(td *sadl.TypeDef) (*Schema, error) {
 	return schema, nil
 }
 
+func (gen *Generator) itemSchema(items string) (*Schema, error) {
+	if items == "" {
+		items = "Any"
+	}
+	itd := gen.Model.FindType(items)
+	if itd == nil {
+		return nil, fmt.Errorf("Undefined item type: %q", items)
+	}
+	if items == itd.Type { //a base type
+		return gen.oasSchema(&itd.TypeSpec, "")
+	}
+	if itd.Type == "Array" || itd.Type == "Map" { //may be recursive
+		return gen.oasSchema(&sadl.TypeSpec{Type: items}, "")
+	}
+	return gen.oasSchema(&itd.TypeSpec, items)
+}
+
 func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
-	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+	itemSchema, err := gen.itemSchema(td.Items)
 	if err != nil {
 		return nil, err
 	}
@@ -479,8 +495,7 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 }
 
 func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
-	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+	itemSchema, err := gen.itemSchema(td.Items)
 	if err != nil {
 		return nil, err
 	}
@@ -647,8 +662,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			Ref: "#/components/schemas/" + name,
 		}, nil
 	case "Array":
-		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+		itemSchema, err := gen.itemSchema(td.Items)
 		if err != nil {
 			return nil, err
 		}
@@ -660,8 +674,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		return tr, nil
 	case "Map":
 		//note: keys are always strings
-		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+		itemSchema, err := gen.itemSchema(td.Items)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 8ba219424a352555e3a4be7f5ebf39868ebb8e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:11 +0000
Subject: [PATCH 029/173] fix: importing OpenAPI gave the types, fields,
 actions and responses in random order

---
 openapi/import_openapi.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 034d497..27ce323 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -6,6 +6,7 @@ import (
 	"io/ioutil"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -141,7 +142,8 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		Comment: comment,
 		Version: model.Info.Version,
 	}
-	for name, oasSchema := range model.Components.Schemas {
+	for _, name := range sortedKeys(model.Components.Schemas) {
+		oasSchema := model.Components.Schemas[name]
 		name = validSadlName(name, oasSchema)
 		if name == "" {
 			continue
@@ -174,8 +176,8 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	}
 
 	httpBindings := true
-	for tmpl, path := range model.Paths {
-		path2 := *path
+	for _, tmpl := range sortedKeys(model.Paths) {
+		path2 := *model.Paths[tmpl]
 		for _, method := range methods {
 			op := getPathOperation(&path2, method)
 			if op != nil {
@@ -346,7 +348,8 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 		ts.Type = "Struct"
 		if oasSchema.Properties != nil {
 			req := oasSchema.Required
-			for fname, fschema := range oasSchema.Properties {
+			for _, fname := range sortedKeys(oasSchema.Properties) {
+				fschema := oasSchema.Properties[fname]
 				fd := &sadl.StructFieldDef{
 					Name:    fname,
 					Comment: fschema.Description,
@@ -368,6 +371,15 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 	return ts, err
 }
 
+func sortedKeys[T any](m map[string]T) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func containsString(lst []string, val string) bool {
 	for _, s := range lst {
 		if s == val {
@@ -505,7 +517,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 	//else: if 201 is in the list, use that
 	//else: ? find a likely candidate.
 	var expectedStatus string = "default"
-	for status, _ := range op.Responses {
+	for _, status := range sortedKeys(op.Responses) {
 		if strings.HasPrefix(status, "2") || strings.HasPrefix(status, "3") {
 			expectedStatus = status
 			break
@@ -531,7 +543,8 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			Status:  int32(code),
 			Comment: eparam.Description,
 		}
-		for header, def := range eparam.Headers {
+		for _, header := range sortedKeys(eparam.Headers) {
+			def := eparam.Headers[header]
 			param := &sadl.HttpParamSpec{}
 			param.Header = header
 			param.Comment = def.Description
@@ -570,7 +583,8 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		}
 		hact.Expected = ex
 	}
-	for status, param := range op.Responses {
+	for _, status := range sortedKeys(op.Responses) {
+		param := op.Responses[status]
 		if status != expectedStatus {
 			//the status can be "default", or "4XX" (where 'X' is a wildcard) or "404". If the latter, it takes precedence.
 			//for SADL, not specifying the response is a bug. So "default" will be turned into "500". The wildcards
-- 
2.43.0


From ca9d14a55c6fecefccaeb74b526929c91816ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:49 +0000
Subject: [PATCH 030/173] fix: importing OpenAPI crashed on absent components,
 dangling or chained references and unsupported constructs

---
 openapi/import_openapi.go | 81 +++++++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 25 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 27ce323..d3475b5 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -142,8 +142,15 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		Comment: comment,
 		Version: model.Info.Version,
 	}
-	for _, name := range sortedKeys(model.Components.Schemas) {
-		oasSchema := model.Components.Schemas[name]
+	var schemas map[string]*Schema
+	if model.Components != nil {
+		schemas = model.Components.Schemas
+	}
+	for _, name := range sortedKeys(schemas) {
+		oasSchema := schemas[name]
+		if oasSchema == nil {
+			return nil, fmt.Errorf("Schema has no definition: %q", name)
+		}
 		name = validSadlName(name, oasSchema)
 		if name == "" {
 			continue
@@ -153,11 +160,15 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		comment := ""
 		tname := oasTypeRef(oasSchema)
 		if tname != "" {
-			if oasDef, ok := model.Components.Schemas[tname]; ok {
-				ts, err = convertOasType(tname, oasDef) //doesn't handle N levels
-			} else {
-				panic("hmm")
+			oasDef := schemas[tname]
+			for n := 0; n < len(schemas) && oasDef != nil && oasDef.Ref != ""; n++ {
+				tname = oasTypeRef(oasDef)
+				oasDef = schemas[tname]
+			}
+			if oasDef == nil || oasDef.Ref != "" {
+				return nil, fmt.Errorf("Reference cannot be resolved in schema %q: %q", name, oasSchema.Ref)
 			}
+			ts, err = convertOasType(name, oasDef)
 		} else {
 			ts, err = convertOasType(name, oasSchema)
 			comment = oasSchema.Description
@@ -177,6 +188,9 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 
 	httpBindings := true
 	for _, tmpl := range sortedKeys(model.Paths) {
+		if model.Paths[tmpl] == nil {
+			continue
+		}
 		path2 := *model.Paths[tmpl]
 		for _, method := range methods {
 			op := getPathOperation(&path2, method)
@@ -310,9 +324,10 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				ts.Items = oasTypeRef(oasSchema.Items)
 			} else {
 				its, err := convertOasType(name+".Items", oasSchema.Items)
-				if err == nil {
-					ts.Items = its.Type
+				if err != nil {
+					return ts, err
 				}
+				ts.Items = its.Type
 			}
 		}
 		//minsize, maxsize
@@ -350,6 +365,9 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 			req := oasSchema.Required
 			for _, fname := range sortedKeys(oasSchema.Properties) {
 				fschema := oasSchema.Properties[fname]
+				if fschema == nil {
+					return ts, fmt.Errorf("Property has no definition: %q", name+"."+fname)
+				}
 				fd := &sadl.StructFieldDef{
 					Name:    fname,
 					Comment: fschema.Description,
@@ -360,13 +378,15 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				fd.Type = oasTypeRef(fschema)
 				if fd.Type == "" {
 					fd.TypeSpec, err = convertOasType(name+"."+fname, fschema)
+					if err != nil {
+						return ts, err
+					}
 				}
 				ts.Fields = append(ts.Fields, fd)
 			}
 		}
 	default:
-		fmt.Printf("oas type is %q\n", oasSchema.Type)
-		panic("oas type not handled")
+		return ts, fmt.Errorf("Unsupported OAS type: %q", oasSchema.Type)
 	}
 	return ts, err
 }
@@ -431,6 +451,9 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 
 	var queries []string
 	for _, param := range op.Parameters {
+		if param == nil {
+			return nil, fmt.Errorf("Parameter of operation %q has no definition", op.OperationId)
+		}
 		name := makeIdentifier(param.Name)
 		spec := &sadl.HttpParamSpec{
 			StructFieldDef: sadl.StructFieldDef{
@@ -446,8 +469,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		case "path":
 			spec.Path = true
 			if strings.Index(path, "{"+name+"}") < 0 {
-				fmt.Println("WARNING: path param is not in path template:", path, name)
-				panic("here")
+				return nil, fmt.Errorf("Path parameter %q is not in the path template: %q", param.Name, path)
 			}
 		case "header":
 			spec.Header = param.Name
@@ -456,9 +478,10 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		}
 		spec.Type = oasTypeRef(param.Schema)
 		if spec.Type == "" {
-			if param.Schema != nil {
-				spec.Type = sadlPrimitiveType(param.Schema.Type)
+			if param.Schema == nil {
+				return nil, fmt.Errorf("Parameter %q of operation %q has no schema", param.Name, op.OperationId)
 			}
+			spec.Type = sadlPrimitiveType(param.Schema.Type)
 			if spec.Type == "Array" {
 				if param.Schema.Items == nil {
 					spec.Items = "Any"
@@ -472,10 +495,10 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 					}
 				}
 			}
-			if spec.Type == "Struct" {
-				panic("Whoops, that can't be right")
+			if spec.Type == "" || spec.Type == "Struct" {
+				return nil, fmt.Errorf("Unsupported type for parameter %q of operation %q: %q", param.Name, op.OperationId, param.Schema.Type)
 			}
-			if param.Schema != nil && param.Schema.Enum != nil {
+			if param.Schema.Enum != nil {
 				for _, val := range param.Schema.Enum {
 					if s, ok := val.(string); ok {
 						spec.Values = append(spec.Values, s)
@@ -494,7 +517,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 	if hact.Method == "POST" || hact.Method == "PUT" || hact.Method == "PATCH" {
 		if op.RequestBody != nil {
 			for contentType, mediadef := range op.RequestBody.Content {
-				if contentType == "application/json" { //hack
+				if contentType == "application/json" && mediadef != nil { //hack
 					bodyType := oasTypeRef(mediadef.Schema)
 					if bodyType != "" {
 						spec := &sadl.HttpParamSpec{
@@ -545,6 +568,9 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		}
 		for _, header := range sortedKeys(eparam.Headers) {
 			def := eparam.Headers[header]
+			if def == nil {
+				continue
+			}
 			param := &sadl.HttpParamSpec{}
 			param.Header = header
 			param.Comment = def.Description
@@ -560,12 +586,15 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 					param.Type = oasTypeRef(schref)
 				} else {
 					param.TypeSpec, err = convertOasType(hact.Name+".Expected."+param.Name, schref) //fix: example
+					if err != nil {
+						return nil, err
+					}
 				}
 				ex.Outputs = append(ex.Outputs, param)
 			}
 		}
 		for contentType, mediadef := range eparam.Content {
-			if contentType == "application/json" { //hack
+			if contentType == "application/json" && mediadef != nil { //hack
 				result := &sadl.HttpParamSpec{}
 				result.Name = "body"
 				schref := mediadef.Schema
@@ -574,6 +603,9 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 						result.Type = oasTypeRef(schref)
 					} else {
 						result.TypeSpec, err = convertOasType(hact.Name+".Expected.payload", schref) //fix: example
+						if err != nil {
+							return nil, err
+						}
 					}
 					ex.Outputs = append(ex.Outputs, result)
 				} else {
@@ -585,13 +617,13 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 	}
 	for _, status := range sortedKeys(op.Responses) {
 		param := op.Responses[status]
-		if status != expectedStatus {
+		if status != expectedStatus && param != nil {
 			//the status can be "default", or "4XX" (where 'X' is a wildcard) or "404". If the latter, it takes precedence.
 			//for SADL, not specifying the response is a bug. So "default" will be turned into "500". The wildcards
 			if status == "default" {
 				status = "0"
 			} else if strings.Index(status, "X") >= 0 {
-				panic("wildcard response codes not supported")
+				return nil, fmt.Errorf("Wildcard response codes not supported: %q in operation %q", status, op.OperationId)
 			}
 			code, err := strconv.Atoi(status)
 			if err != nil {
@@ -603,13 +635,13 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			}
 			//FIXME: sadl should allow response headers for exceptions, also.
 			for contentType, mediadef := range param.Content {
-				if contentType == "application/json" { //hack
+				if contentType == "application/json" && mediadef != nil { //hack
 					schref := mediadef.Schema
 					if schref != nil {
 						if schref.Ref != "" {
 							ex.Type = oasTypeRef(schref)
 						} else {
-							panic("inline response types not yet supported")
+							return nil, fmt.Errorf("Inline types not supported for exceptional responses: %q in operation %q", status, op.OperationId)
 						}
 						break
 					}
@@ -701,8 +733,7 @@ func sadlPrimitiveType(name string) string {
 	case "boolean":
 		return "Bool"
 	default:
-		fmt.Println("sadlPrimitiveType for:", name)
-		panic("what?")
+		return ""
 	}
 }
 
-- 
2.43.0


From 0251c5614b16b22e8aaf15a07d582b9a0aa1df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:49 +0000
Subject: [PATCH 031/173] fix: importing OpenAPI produced examples for targets
 that do not exist in the model

---
 openapi/import_openapi.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index d3475b5..93e90a8 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -225,9 +225,17 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		schema.Annotations = annotations
 	}
 
-	schema.Examples = examples
-
-	return sadl.NewModel(schema)
+	sadlModel, err := sadl.NewModel(schema)
+	if err != nil {
+		return nil, err
+	}
+	for _, ex := range examples {
+		//examples of items and inline payloads have no SADL target
+		if _, err := sadlModel.FindExampleType(ex); err == nil {
+			sadlModel.Examples = append(sadlModel.Examples, ex)
+		}
+	}
+	return sadlModel, nil
 }
 
 func validSadlName(name string, oasSchema *Schema) string {
-- 
2.43.0


From 398228fa73a913efffaed137c4822ff087ab10ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:50 +0000
Subject: [PATCH 032/173] fix: importing OpenAPI lost floating point formats
 and the size limits and default item type of arrays

---
 openapi/import_openapi.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 93e90a8..2b61dd2 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -338,10 +338,26 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				ts.Items = its.Type
 			}
 		}
-		//minsize, maxsize
-		//comment
+		if ts.Items == "" {
+			ts.Items = "Any"
+		}
+		if oasSchema.MinItems > 0 {
+			tmpMin := int64(oasSchema.MinItems)
+			ts.MinSize = &tmpMin
+		}
+		if oasSchema.MaxItems != nil {
+			tmpMax := int64(*oasSchema.MaxItems)
+			ts.MaxSize = &tmpMax
+		}
 	case "number":
-		ts.Type = "Decimal"
+		switch oasSchema.Format {
+		case "float":
+			ts.Type = "Float32"
+		case "double":
+			ts.Type = "Float64"
+		default:
+			ts.Type = "Decimal"
+		}
 		if oasSchema.Min != nil {
 			ts.Min = sadl.NewDecimal(*oasSchema.Min)
 		}
-- 
2.43.0


From b74963ea4c873a86153a618d2e55e88c57e05d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:50 +0000
Subject: [PATCH 033/173] fix: importing OpenAPI turned maps, unions and
 untyped values into empty structs

---
 openapi/import_openapi.go | 71 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 63 insertions(+), 8 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 2b61dd2..c9c90d4 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -328,14 +328,9 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 	case "array":
 		ts.Type = "Array"
 		if oasSchema.Items != nil {
-			if oasSchema.Items.Ref != "" {
-				ts.Items = oasTypeRef(oasSchema.Items)
-			} else {
-				its, err := convertOasType(name+".Items", oasSchema.Items)
-				if err != nil {
-					return ts, err
-				}
-				ts.Items = its.Type
+			ts.Items, err = oasTypeName(name+".Items", oasSchema.Items)
+			if err != nil {
+				return ts, err
 			}
 		}
 		if ts.Items == "" {
@@ -384,6 +379,18 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 			ts.Max = sadl.NewDecimal(*oasSchema.Max)
 		}
 	case "", "object":
+		if len(oasSchema.OneOf) > 0 {
+			return convertOasUnion(name, oasSchema)
+		}
+		if oasSchema.Properties == nil {
+			if _, ok := oasSchema.AdditionalProperties.(map[string]interface{}); ok {
+				return convertOasMap(name, oasSchema)
+			}
+			if oasSchema.Type == "" && oasSchema.AdditionalProperties == nil && oasSchema.AllOf == nil && oasSchema.AnyOf == nil {
+				ts.Type = "Any"
+				return ts, nil
+			}
+		}
 		ts.Type = "Struct"
 		if oasSchema.Properties != nil {
 			req := oasSchema.Required
@@ -415,6 +422,54 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 	return ts, err
 }
 
+func convertOasUnion(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
+	ts := sadl.TypeSpec{Type: "Union"}
+	for _, variant := range oasSchema.OneOf {
+		tname, err := oasTypeName(name, variant)
+		if err != nil {
+			return ts, err
+		}
+		vd := &sadl.UnionVariantDef{Name: tname}
+		vd.Type = tname
+		ts.Variants = append(ts.Variants, vd)
+	}
+	return ts, nil
+}
+
+func convertOasMap(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
+	ts := sadl.TypeSpec{Type: "Map", Keys: "String"}
+	data, err := json.Marshal(oasSchema.AdditionalProperties)
+	if err != nil {
+		return ts, err
+	}
+	var items Schema
+	err = json.Unmarshal(data, &items)
+	if err != nil {
+		return ts, err
+	}
+	ts.Items, err = oasTypeName(name+".Items", &items)
+	if oasSchema.MinProps > 0 {
+		tmpMin := int64(oasSchema.MinProps)
+		ts.MinSize = &tmpMin
+	}
+	if oasSchema.MaxProps != nil {
+		tmpMax := int64(*oasSchema.MaxProps)
+		ts.MaxSize = &tmpMax
+	}
+	return ts, err
+}
+
+func oasTypeName(context string, oasSchema *Schema) (string, error) {
+	if oasSchema == nil {
+		return "", fmt.Errorf("Schema has no definition: %q", context)
+	}
+	if oasSchema.Ref != "" {
+		return oasTypeRef(oasSchema), nil
+	}
+	ts, err := convertOasType(context, oasSchema)
+	return ts.Type, err
+}
+
 func sortedKeys[T any](m map[string]T) []string {
 	keys := make([]string, 0, len(m))
 	for k := range m {
-- 
2.43.0


From adc9c4868b14a38622f8707eb730864e54d1384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:20 +0000
Subject: [PATCH 034/173] fix: importing OpenAPI arrays of inline enums gave an
 item type that accepts nothing

---
 openapi/import_openapi.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index c9c90d4..be044cc 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -383,7 +383,8 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 			return convertOasUnion(name, oasSchema)
 		}
 		if oasSchema.Properties == nil {
-			if _, ok := oasSchema.AdditionalProperties.(map[string]interface{}); ok {
+			switch oasSchema.AdditionalProperties.(type) {
+			case map[string]interface{}, *Schema:
 				return convertOasMap(name, oasSchema)
 			}
 			if oasSchema.Type == "" && oasSchema.AdditionalProperties == nil && oasSchema.AllOf == nil && oasSchema.AnyOf == nil {
@@ -467,6 +468,15 @@ func oasTypeName(context string, oasSchema *Schema) (string, error) {
 		return oasTypeRef(oasSchema), nil
 	}
 	ts, err := convertOasType(context, oasSchema)
+	if err == nil {
+		//the symbols or variants of an inline type cannot be expressed here
+		switch ts.Type {
+		case "Enum":
+			return "String", nil
+		case "Union":
+			return "Any", nil
+		}
+	}
 	return ts.Type, err
 }
 
-- 
2.43.0


From 72a15ad85dd41443e569ae3229c8633413f0f5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:21 +0000
Subject: [PATCH 035/173] fix: importing OpenAPI dropped PATCH and OPTIONS
 operations

---
 openapi/import_openapi.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index be044cc..678c5ea 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -122,7 +122,7 @@ func xParse(data []byte, format string) (*Model, error) {
 
 var examples []*sadl.ExampleDef
 
-var methods = []string{"GET", "PUT", "POST", "DELETE", "HEAD"} //to do: "PATCH", "OPTIONS", "TRACE"
+var methods = []string{"GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS"} //to do: "TRACE"
 
 func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	annotations := make(map[string]string, 0)
@@ -758,11 +758,11 @@ func getPathOperation(oasPathItem *PathItem, method string) *Operation {
 		return oasPathItem.Delete
 	case "HEAD":
 		return oasPathItem.Head
+	case "PATCH":
+		return oasPathItem.Patch
+	case "OPTIONS":
+		return oasPathItem.Options
 		/*
-			case "PATCH":
-				return oasPathItem.Patch
-			case "OPTIONS":
-				return oasPathItem.Options
 			case "TRACE":
 				return oasPathItem.Trace
 			case "CONNECT":
-- 
2.43.0


From bac40575b9a38b38d48d39342943ff486a40707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:21 +0000
Subject: [PATCH 036/173] fix: importing OpenAPI mangled parameter names with
 digits and crashed on path parameters that are not identifiers

---
 openapi/import_openapi.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 678c5ea..934eb34 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -507,7 +507,7 @@ func uncapitalize(s string) string {
 }
 
 func makeIdentifier(text string) string {
-	reg, _ := regexp.Compile("[^a-zA-Z_][^a-zA-Z_0-9]*")
+	reg, _ := regexp.Compile("^[^a-zA-Z_]+|[^a-zA-Z_0-9]+")
 	return reg.ReplaceAllString(text, "")
 }
 
@@ -557,7 +557,8 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			queries = append(queries, param.Name+"={"+name+"}")
 		case "path":
 			spec.Path = true
-			if strings.Index(path, "{"+name+"}") < 0 {
+			hact.Path = strings.Replace(hact.Path, "{"+param.Name+"}", "{"+name+"}", -1)
+			if strings.Index(path, "{"+param.Name+"}") < 0 {
 				return nil, fmt.Errorf("Path parameter %q is not in the path template: %q", param.Name, path)
 			}
 		case "header":
-- 
2.43.0


From 069d6bd3d82acea81695454351c71760a2322a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:19 +0000
Subject: [PATCH 037/173] fix: importing OpenAPI lost the format, limits and
 item types of parameters

---
 openapi/import_openapi.go | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 934eb34..38f068a 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -571,33 +571,25 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			if param.Schema == nil {
 				return nil, fmt.Errorf("Parameter %q of operation %q has no schema", param.Name, op.OperationId)
 			}
-			spec.Type = sadlPrimitiveType(param.Schema.Type)
-			if spec.Type == "Array" {
-				if param.Schema.Items == nil {
-					spec.Items = "Any"
-				} else {
-					schref := param.Schema.Items
-					switch schref.Type {
-					case "string":
-						spec.Items = "String"
-					default:
-						spec.Items = "Any"
-					}
-				}
-			}
-			if spec.Type == "" || spec.Type == "Struct" {
+			if sadlPrimitiveType(param.Schema.Type) == "" || param.Schema.Type == "object" {
 				return nil, fmt.Errorf("Unsupported type for parameter %q of operation %q: %q", param.Name, op.OperationId, param.Schema.Type)
 			}
-			if param.Schema.Enum != nil {
-				for _, val := range param.Schema.Enum {
-					if s, ok := val.(string); ok {
-						spec.Values = append(spec.Values, s)
-					} else {
-						return nil, fmt.Errorf("String enum values are not strings: %v", param.Schema.Enum)
-					}
+			if param.Schema.Enum != nil && param.Schema.Type != "string" {
+				return nil, fmt.Errorf("String enum values are not strings: %v", param.Schema.Enum)
+			}
+			ts, err := convertOasType(sadl.Capitalize(hact.Name)+"Request."+name, param.Schema)
+			if err != nil {
+				return nil, err
+			}
+			spec.TypeSpec = ts
+			if param.Schema.Type == "integer" && param.Schema.Format == "" {
+				spec.Type = "Int32"
+			} else if ts.Type == "Enum" {
+				spec.TypeSpec = sadl.TypeSpec{Type: "String"}
+				for _, el := range ts.Elements {
+					spec.Values = append(spec.Values, el.Symbol)
 				}
 			}
-		} else {
 		}
 		hact.Inputs = append(hact.Inputs, spec)
 	}
-- 
2.43.0


From 8fbac79b87b56015815ad82ea0b00ce59db4bfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:34 +0000
Subject: [PATCH 038/173] fix: importing OpenAPI dropped inline request bodies
 and path level parameters; concurrent imports mixed up their examples

---
 openapi/import_openapi.go | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 38f068a..bc9d0d8 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -9,6 +9,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/boynton/sadl"
 	"github.com/ghodss/yaml"
@@ -120,12 +121,15 @@ func xParse(data []byte, format string) (*Model, error) {
 }
 */
 
+var examplesLock sync.Mutex
 var examples []*sadl.ExampleDef
 
 var methods = []string{"GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS"} //to do: "TRACE"
 
 func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	annotations := make(map[string]string, 0)
+	examplesLock.Lock()
+	defer examplesLock.Unlock()
 	examples = nil
 	annotations["x_openapi_version"] = model.OpenAPI
 
@@ -199,7 +203,14 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 					continue
 				}
 				if httpBindings {
-					hact, err := convertOasPath(tmpl, op, method)
+					//parameters of the path apply to all its operations
+					op2 := *op
+					for _, param := range path2.Parameters {
+						if param != nil && !hasParameter(op, param) {
+							op2.Parameters = append(op2.Parameters[:len(op2.Parameters):len(op2.Parameters)], param)
+						}
+					}
+					hact, err := convertOasPath(tmpl, &op2, method)
 					if err != nil {
 						return nil, err
 					}
@@ -511,6 +522,15 @@ func makeIdentifier(text string) string {
 	return reg.ReplaceAllString(text, "")
 }
 
+func hasParameter(op *Operation, param *Parameter) bool {
+	for _, p := range op.Parameters {
+		if p != nil && p.Name == param.Name && p.In == param.In {
+			return true
+		}
+	}
+	return false
+}
+
 func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, error) {
 	hact := &sadl.HttpDef{
 		Name:    op.OperationId,
@@ -600,13 +620,19 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		if op.RequestBody != nil {
 			for contentType, mediadef := range op.RequestBody.Content {
 				if contentType == "application/json" && mediadef != nil { //hack
-					bodyType := oasTypeRef(mediadef.Schema)
-					if bodyType != "" {
+					if mediadef.Schema != nil {
+						var ts sadl.TypeSpec
+						ts.Type = oasTypeRef(mediadef.Schema)
+						if ts.Type == "" {
+							var err error
+							ts, err = convertOasType(sadl.Capitalize(hact.Name)+"Request.body", mediadef.Schema)
+							if err != nil {
+								return nil, err
+							}
+						}
 						spec := &sadl.HttpParamSpec{
 							StructFieldDef: sadl.StructFieldDef{
-								TypeSpec: sadl.TypeSpec{
-									Type: bodyType,
-								},
+								TypeSpec: ts,
 								Comment:  op.RequestBody.Description,
 								Name:     "body",
 								Required: op.RequestBody.Required,
-- 
2.43.0


From da5fc5850534d86c0c061d16fae60fbcae7b8ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:54 +0000
Subject: [PATCH 039/173] fix: warnings of the OpenAPI import went to the
 standard output, into the converted model

---
 openapi/import_openapi.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index bc9d0d8..ee8bc8c 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
+	"os"
 	"path/filepath"
 	"regexp"
 	"sort"
@@ -332,7 +333,7 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 					ts.MaxSize = &tmpMax
 				}
 				if oasSchema.Format != "" {
-					fmt.Println("NYI: String 'format':", oasSchema.Format)
+					fmt.Fprintln(os.Stderr, "NYI: String 'format':", oasSchema.Format)
 				}
 			}
 		}
@@ -717,7 +718,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 					}
 					ex.Outputs = append(ex.Outputs, result)
 				} else {
-					fmt.Println("HTTP Action has no expected result type:", sadl.Pretty(eparam))
+					fmt.Fprintln(os.Stderr, "HTTP Action has no expected result type:", sadl.Pretty(eparam))
 				}
 			}
 		}
@@ -818,7 +819,7 @@ func guessOperationName(op *Operation, method string) string {
 						return entityType
 					}
 				} else {
-					fmt.Println("HTTP Action has no expected result type:", sadl.Pretty(resp))
+					fmt.Fprintln(os.Stderr, "HTTP Action has no expected result type:", sadl.Pretty(resp))
 				}
 			}
 		}
-- 
2.43.0


From 578b3738bf29a3555b9829c16b57abc311a1ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:16 +0000
Subject: [PATCH 040/173] fix: Swagger import lost the limits of numbers and
 arrays and the constraints and description of parameters and headers

---
 openapi/import_swagger.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index c5648e8..28a4540 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -107,16 +107,16 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 				Content:     toV3Content(consumes, paramd.Get("schema")),
 			}
 		} else {
-			var tp interface{}
-			tp = paramd.GetString("type")
-			if tp == "" {
+			tp := param
+			if !paramd.Has("type") {
 				tp = paramd.Get("schema")
 			}
 			p := &Parameter{
-				In:       paramd.GetString("in"),
-				Name:     paramd.GetString("name"),
-				Required: paramd.GetBool("required"),
-				Schema:   toV3Schema(tp),
+				In:          paramd.GetString("in"),
+				Name:        paramd.GetString("name"),
+				Description: paramd.GetString("description"),
+				Required:    paramd.GetBool("required"),
+				Schema:      toV3Schema(tp),
 			}
 			params = append(params, p)
 		}
@@ -155,7 +155,7 @@ func toV3Headers(v2 map[string]interface{}) map[string]*Header {
 		vd := sadl.AsData(v)
 		headers[k] = &Header{
 			Description: vd.GetString("description"),
-			Schema:      toV3Schema(vd.GetString("type")),
+			Schema:      toV3Schema(v),
 		}
 	}
 	return headers
@@ -207,6 +207,13 @@ func toV3Schema(v2Any interface{}) *Schema {
 		}
 	case "array":
 		schema.Items = toV3Schema(v2.Get("items"))
+		if v2.Has("maxItems") {
+			n := uint64(v2.GetInt64("maxItems"))
+			schema.MaxItems = &n
+		}
+		if v2.Has("minItems") {
+			schema.MinItems = uint64(v2.GetInt64("minItems"))
+		}
 	case "string":
 		schema.Format = v2.GetString("format")
 		schema.Pattern = v2.GetString("pattern")
@@ -228,12 +235,12 @@ func toV3Schema(v2Any interface{}) *Schema {
 		}
 	case "integer", "number":
 		schema.Format = v2.GetString("format")
-		if v2.Has("min") {
-			f := v2.GetFloat64("min")
+		if v2.Has("minimum") {
+			f := v2.GetFloat64("minimum")
 			schema.Min = &f
 		}
-		if v2.Has("max") {
-			f := v2.GetFloat64("max")
+		if v2.Has("maximum") {
+			f := v2.GetFloat64("maximum")
 			schema.Max = &f
 		}
 	case "boolean":
-- 
2.43.0


From 442f21d02c58c7ba6328f521e67ca84f93fa21ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:16 +0000
Subject: [PATCH 041/173] fix: Swagger import crashed on or lost maps, untyped
 objects, OPTIONS and bodies without declared media types

---
 openapi/import_swagger.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 28a4540..c15398c 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -69,12 +69,13 @@ func toV3Paths(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []
 	for k, v := range v2.AsMap() {
 		vd := sadl.AsData(v)
 		pi := &PathItem{
-			Get:    toV3Operation(model, vd.GetData("get"), defConsumes, defProduces),
-			Delete: toV3Operation(model, vd.GetData("delete"), defConsumes, defProduces),
-			Put:    toV3Operation(model, vd.GetData("put"), defConsumes, defProduces),
-			Post:   toV3Operation(model, vd.GetData("post"), defConsumes, defProduces),
-			Patch:  toV3Operation(model, vd.GetData("patch"), defConsumes, defProduces),
-			Head:   toV3Operation(model, vd.GetData("head"), defConsumes, defProduces),
+			Get:     toV3Operation(model, vd.GetData("get"), defConsumes, defProduces),
+			Delete:  toV3Operation(model, vd.GetData("delete"), defConsumes, defProduces),
+			Put:     toV3Operation(model, vd.GetData("put"), defConsumes, defProduces),
+			Post:    toV3Operation(model, vd.GetData("post"), defConsumes, defProduces),
+			Patch:   toV3Operation(model, vd.GetData("patch"), defConsumes, defProduces),
+			Head:    toV3Operation(model, vd.GetData("head"), defConsumes, defProduces),
+			Options: toV3Operation(model, vd.GetData("options"), defConsumes, defProduces),
 			//etc
 		}
 		paths[k] = pi
@@ -166,6 +167,9 @@ func toV3Content(mediaTypes []string, v2 interface{}) Content {
 		return nil
 	}
 	schema := toV3Schema(v2)
+	if len(mediaTypes) == 0 {
+		mediaTypes = []string{"application/json"}
+	}
 	content := make(map[string]*MediaType, 0)
 	for _, mt := range mediaTypes {
 		md := &MediaType{
@@ -199,8 +203,26 @@ func toV3Schema(v2Any interface{}) *Schema {
 	schema.Description = v2.GetString("description")
 	schema.Type = v2.GetString("type")
 	schema.Required = v2.GetStringArray("required")
+	schema.Example = v2.Get("example")
+	if schema.Type == "" && v2.Has("properties") {
+		schema.Type = "object"
+	}
 	switch schema.Type {
 	case "object":
+		if v2.Has("additionalProperties") && !v2.Has("properties") {
+			schema.AdditionalProperties = v2.Get("additionalProperties")
+			if items, ok := schema.AdditionalProperties.(map[string]interface{}); ok {
+				schema.AdditionalProperties = toV3Schema(items)
+			}
+			if v2.Has("maxProperties") {
+				n := uint64(v2.GetInt64("maxProperties"))
+				schema.MaxProps = &n
+			}
+			if v2.Has("minProperties") {
+				schema.MinProps = uint64(v2.GetInt64("minProperties"))
+			}
+			break
+		}
 		schema.Properties = make(map[string]*Schema, 0)
 		for k, v := range v2.GetData("properties").AsMap() {
 			schema.Properties[k] = toV3Schema(v)
@@ -248,9 +270,6 @@ func toV3Schema(v2Any interface{}) *Schema {
 	default:
 		if v2.Has("$ref") {
 			schema.Ref = strings.Replace(v2.GetString("$ref"), "#/definitions/", "#/components/schemas/", -1)
-		} else {
-			fmt.Printf("type: %q\n%s\n->%v\n", schema.Type, sadl.Pretty(v2), v2.Get("$ref"))
-			panic("fix this schema")
 		}
 	}
 	return schema
-- 
2.43.0


From 13f1ebffad84d076e3deed6eddd97d18e743b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:42 +0000
Subject: [PATCH 042/173] fix: importing OpenAPI crashed on an empty server
 entry

---
 openapi/import_openapi.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index ee8bc8c..6e9c452 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -221,7 +221,9 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		}
 	}
 	for _, server := range model.Servers {
-		annotations["x_server"] = server.URL
+		if server != nil {
+			annotations["x_server"] = server.URL
+		}
 	}
 	if model.Info.License != nil {
 		if model.Info.License.Name != "" {
-- 
2.43.0


From fa77d2e7abb461d9e9043093ee750b1aa63ff300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:53 +0000
Subject: [PATCH 043/173] fix: OpenAPI export lost the names of scalar item
 types, so that importing the document lost their constraints

---
 openapi/export_openapi.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index d66a9ad..95d85f8 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -467,17 +467,10 @@ func (gen *Generator) itemSchema(items string) (*Schema, error) {
 	if items == "" {
 		items = "Any"
 	}
-	itd := gen.Model.FindType(items)
-	if itd == nil {
+	if gen.Model.FindType(items) == nil {
 		return nil, fmt.Errorf("Undefined item type: %q", items)
 	}
-	if items == itd.Type { //a base type
-		return gen.oasSchema(&itd.TypeSpec, "")
-	}
-	if itd.Type == "Array" || itd.Type == "Map" { //may be recursive
-		return gen.oasSchema(&sadl.TypeSpec{Type: items}, "")
-	}
-	return gen.oasSchema(&itd.TypeSpec, items)
+	return gen.oasSchema(&sadl.TypeSpec{Type: items}, "")
 }
 
 func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
-- 
2.43.0


From 0114d927a632b33b5fe03deb63fffa496fadb419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:01 +0000
Subject: [PATCH 044/173] fix: GraphQL export crashed instead of reporting what
 it cannot express, and on named UUID and Timestamp types

---
 graphql/export_graphql.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 192d6a6..a4f6ae0 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -11,8 +11,7 @@ import (
 func Export(model *sadl.Model, conf *sadl.Data) error {
 	s, err := FromSadl(model, conf)
 	if err != nil {
-		panic(fmt.Sprintf("*** %v\n", err))
-		//		return err
+		return err
 	}
 	fmt.Print(s)
 	return nil
@@ -41,12 +40,12 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 			err = w.EmitStructDef(td)
 		case "Union":
 			err = w.EmitUnionDef(td)
-		case "String", "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
+		case "String", "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "UUID", "Timestamp":
 			//these get replace by the equivalent type, you cannot "subtype" thesein GraphQL
 		case "Array":
 			//skip these. All references to it should be replaced with literal GraphQL list syntax.
 		default:
-			panic("fixme: " + td.Type)
+			err = fmt.Errorf("GraphQL cannot represent type %s (%s)", td.Name, td.Type)
 		}
 		if err != nil {
 			return "", err
-- 
2.43.0


From 2447d0a8e0db57cb9596b4d5542dc9443181d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:01 +0000
Subject: [PATCH 045/173] fix: GraphQL export wrote custom scalars in random
 order

---
 graphql/export_graphql.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index a4f6ae0..5c2a1f8 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"sort"
 
 	"github.com/boynton/sadl"
 )
@@ -51,7 +52,12 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 			return "", err
 		}
 	}
+	var scalars []string
 	for k, _ := range w.customScalars {
+		scalars = append(scalars, k)
+	}
+	sort.Strings(scalars)
+	for _, k := range scalars {
 		w.Emit("scalar %s\n", k)
 	}
 	return w.End(), nil
-- 
2.43.0


From 14c9053ee0d4c11573119270058fc8a1d9af6628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:01 +0000
Subject: [PATCH 046/173] fix: GraphQL export wrote multi-line comments as
 field definitions

---
 graphql/export_graphql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 5c2a1f8..7dfcf59 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"sort"
+	"strings"
 
 	"github.com/boynton/sadl"
 )
@@ -102,7 +103,7 @@ func (w *GraphqlWriter) EmitStructDef(td *sadl.TypeDef) error {
 		}
 		if fd.Comment != "" {
 			//TO DO: format as block before the field
-			w.Emit("  # %s\n", fd.Comment)
+			w.Emit("  # %s\n", strings.Replace(fd.Comment, "\n", "\n  # ", -1))
 		}
 		ftype := w.typeRef(&fd.TypeSpec)
 		w.Emit("  %s: %s%s\n", fd.Name, ftype, required)
-- 
2.43.0


From 123ce6ed32b19bcfbd4053a799654598177bd1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:01 +0000
Subject: [PATCH 047/173] fix: GraphQL export wrote undefined type names for
 list items and inline types

---
 graphql/export_graphql.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 7dfcf59..b0ec906 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -105,7 +105,10 @@ func (w *GraphqlWriter) EmitStructDef(td *sadl.TypeDef) error {
 			//TO DO: format as block before the field
 			w.Emit("  # %s\n", strings.Replace(fd.Comment, "\n", "\n  # ", -1))
 		}
-		ftype := w.typeRef(&fd.TypeSpec)
+		ftype, err := w.typeRef(&fd.TypeSpec, 0)
+		if err != nil {
+			return fmt.Errorf("%s.%s: %v", td.Name, fd.Name, err)
+		}
 		w.Emit("  %s: %s%s\n", fd.Name, ftype, required)
 	}
 	w.Emit("}\n\n")
@@ -140,26 +143,34 @@ func (w *GraphqlWriter) scalarType(name string) string {
 	}
 }
 
-func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec) string {
+func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec, depth int) (string, error) {
 	if td, ok := w.arrays[ts.Type]; ok {
 		ts = &td.TypeSpec
 	}
 	tsName := w.scalarType(ts.Type)
 	if tsName != "" {
-		return tsName
+		return tsName, nil
 	}
 	switch ts.Type {
 	case "Array":
-		return fmt.Sprintf("[%s!]", ts.Items)
+		if depth > len(w.arrays) {
+			return "", fmt.Errorf("GraphQL cannot represent a list that contains itself")
+		}
+		items, err := w.typeRef(&sadl.TypeSpec{Type: ts.Items}, depth+1)
+		if err != nil {
+			return "", err
+		}
+		return fmt.Sprintf("[%s!]", items), nil
 	default:
 		td := w.model.FindType(ts.Type)
-		if td != nil {
-			tsName = w.scalarType(td.Type)
-			if tsName != "" {
-				return tsName
-			}
+		if td == nil || td.Name == td.Type {
+			return "", fmt.Errorf("GraphQL cannot represent an inline %s", ts.Type)
+		}
+		tsName = w.scalarType(td.Type)
+		if tsName != "" {
+			return tsName, nil
 		}
-		return ts.Type
+		return ts.Type, nil
 	}
 }
 
-- 
2.43.0


From 0cbc58aeab264ab5d7decc7671690d301b1c57e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:59 +0000
Subject: [PATCH 048/173] fix: GraphQL export wrote unions of types that are
 not objects

---
 graphql/export_graphql.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index b0ec906..5e4f0fa 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -183,6 +183,9 @@ func (w *GraphqlWriter) EmitUnionDef(td *sadl.TypeDef) error {
 			w.Emit("    ")
 		}
 		vtype := uv.Type
+		if vtd := w.model.FindType(vtype); vtd == nil || vtd.Type != "Struct" || vtd.Name == "Struct" {
+			return fmt.Errorf("%s: GraphQL unions can only contain object types, not %s", td.Name, vtype)
+		}
 		w.Emit("%s\n", vtype)
 	}
 	w.Emit("\n")
-- 
2.43.0


From 71031591b291052a9ae754d79d656fba2284aeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:27 +0000
Subject: [PATCH 049/173] fix: GraphQL import crashed on or misread lists of
 lists

---
 graphql/import_graphql.go | 40 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index e269216..8e58362 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -116,6 +116,17 @@ func typeName(t gql_ast.Type) string {
 	}
 }
 
+func itemTypeName(list *gql_ast.List) (string, error) {
+	it := list.Type
+	if nn, ok := it.(*gql_ast.NonNull); ok {
+		it = nn.Type
+	}
+	if _, ok := it.(*gql_ast.List); ok {
+		return "", fmt.Errorf("lists of lists are not supported")
+	}
+	return convertTypeName(typeName(it)), nil
+}
+
 func convertTypeName(n string) string {
 	switch n {
 	case "Int":
@@ -196,6 +207,7 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 			Type: "Struct",
 		},
 	}
+	var err error
 	for _, fnode := range structDef.Fields {
 		f := (*gql_ast.FieldDefinition)(fnode)
 		fd := &sadl.StructFieldDef{
@@ -207,38 +219,20 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 			fd.Type = convertTypeName(t.Name.Value)
 		case *gql_ast.List:
 			fd.Type = "Array"
-			switch it := t.Type.(type) {
-			case *gql_ast.Named:
-				fd.Items = convertTypeName(it.Name.Value)
-			case *gql_ast.NonNull:
-				switch it := it.Type.(type) {
-				case *gql_ast.Named:
-					fd.Items = convertTypeName(it.Name.Value)
-				default:
-					panic("inline list type not supported")
-				}
-			default:
-				panic("list type not supported")
-			}
+			fd.Items, err = itemTypeName(t)
 		case *gql_ast.NonNull:
 			fd.Required = true
 			switch t := t.Type.(type) {
-			case *gql_ast.Named:
-				fd.Type = convertTypeName(t.Name.Value)
 			case *gql_ast.List:
 				fd.Type = "Array"
-				switch it := t.Type.(type) {
-				case *gql_ast.Named:
-					fd.Items = convertTypeName(it.Name.Value)
-				case *gql_ast.NonNull:
-					fd.Items = convertTypeName(typeName(it.Type))
-				default:
-					panic("inline list type not supported")
-				}
+				fd.Items, err = itemTypeName(t)
 			default:
 				fd.Type = convertTypeName(typeName(t))
 			}
 		}
+		if err != nil {
+			return fmt.Errorf("%s.%s: %v", td.Name, fd.Name, err)
+		}
 		td.Fields = append(td.Fields, fd)
 	}
 	schema.Types = append(schema.Types, td)
-- 
2.43.0


From 75c555613cc7fe1435a74d7432abe4c7f34c8bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:27 +0000
Subject: [PATCH 050/173] fix: GraphQL import kept the operation types when the
 schema definition came after them

---
 graphql/import_graphql.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index 8e58362..fd5061e 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -67,6 +67,14 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 		},
 	}
 	schema.Types = append(schema.Types, td)
+	for _, def := range doc.Definitions {
+		if sdef, ok := def.(*gql_ast.SchemaDefinition); ok {
+			for _, opt := range sdef.OperationTypes {
+				iname := (*gql_ast.Named)(opt.Type).Name.Value
+				ignore[iname] = true
+			}
+		}
+	}
 	for _, def := range doc.Definitions {
 		switch tdef := def.(type) {
 		case *gql_ast.ObjectDefinition:
@@ -74,10 +82,7 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 				err = gqlStruct(schema, tdef)
 			}
 		case *gql_ast.SchemaDefinition:
-			for _, opt := range tdef.OperationTypes {
-				iname := (*gql_ast.Named)(opt.Type).Name.Value
-				ignore[iname] = true
-			}
+			//the operation types it names are ignored
 		case *gql_ast.EnumDefinition:
 			err = gqlEnum(schema, tdef)
 		case *gql_ast.UnionDefinition:
-- 
2.43.0


From 78870c50777448711385e4e7ca9e17b11490ea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:22 +0000
Subject: [PATCH 051/173] fix: GraphQL import crashed on or accepted fields
 without a type

---
 graphql/import_graphql.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index fd5061e..966c258 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -110,14 +110,14 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 	return schema, nil
 }
 
-func typeName(t gql_ast.Type) string {
+func typeName(t gql_ast.Type) (string, error) {
 	switch tt := t.(type) {
 	case *gql_ast.Named:
-		return tt.Name.Value
+		return convertTypeName(tt.Name.Value), nil
 	case *gql_ast.List:
-		return "Array"
+		return "", fmt.Errorf("lists of lists are not supported")
 	default:
-		panic("FixMe")
+		return "", fmt.Errorf("missing type")
 	}
 }
 
@@ -126,10 +126,7 @@ func itemTypeName(list *gql_ast.List) (string, error) {
 	if nn, ok := it.(*gql_ast.NonNull); ok {
 		it = nn.Type
 	}
-	if _, ok := it.(*gql_ast.List); ok {
-		return "", fmt.Errorf("lists of lists are not supported")
-	}
-	return convertTypeName(typeName(it)), nil
+	return typeName(it)
 }
 
 func convertTypeName(n string) string {
@@ -220,8 +217,6 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 			Comment: commentValue(stringValue(f.Description)),
 		}
 		switch t := (*gql_ast.FieldDefinition)(fnode).Type.(type) {
-		case *gql_ast.Named:
-			fd.Type = convertTypeName(t.Name.Value)
 		case *gql_ast.List:
 			fd.Type = "Array"
 			fd.Items, err = itemTypeName(t)
@@ -232,8 +227,10 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 				fd.Type = "Array"
 				fd.Items, err = itemTypeName(t)
 			default:
-				fd.Type = convertTypeName(typeName(t))
+				fd.Type, err = typeName(t)
 			}
+		default:
+			fd.Type, err = typeName(t)
 		}
 		if err != nil {
 			return fmt.Errorf("%s.%s: %v", td.Name, fd.Name, err)
-- 
2.43.0


From d4c51ae90fb2ec6c108f5375b5ad84214fa9d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:05 +0000
Subject: [PATCH 052/173] fix: generated Go enums did not compile for want of
 imports

---
 golang/golang_model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index fd34161..2e23959 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -208,6 +208,8 @@ func (gen *Generator) EmitEnumType(td *sadl.TypeDef) {
 			return val
 		},
 	}
+	gen.addImport("encoding/json")
+	gen.addImport("fmt")
 	gen.EmitTemplate("enumType", enumTemplate, td, funcMap)
 }
 
-- 
2.43.0


From 78138aa66e94bcdfc0c1f0763018f1dd91105673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:05 +0000
Subject: [PATCH 053/173] fix: generated Go numeric types did not compile and
 parsed fractions as integers

---
 golang/golang_model.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 2e23959..f3a96f7 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -2,6 +2,7 @@ package golang
 
 import (
 	"fmt"
+	"strings"
 	"text/template"
 
 	"github.com/boynton/sadl"
@@ -126,7 +127,11 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		name := td.Name
 		gen.Emit("type " + name + " " + sadl.Uncapitalize(td.Type) + "\n")
 		gen.addImport("strconv")
-		gen.Emit("func " + name + "FromString(s string) " + name + "{\n\tn, err := strconv.ParseInt(s, 10, 64)\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn n\n}\n")
+		parse := "strconv.ParseInt(s, 10, " + strings.TrimPrefix(td.Type, "Int") + ")"
+		if strings.HasPrefix(td.Type, "Float") {
+			parse = "strconv.ParseFloat(s, " + strings.TrimPrefix(td.Type, "Float") + ")"
+		}
+		gen.Emit("func " + name + "FromString(s string) " + name + "{\n\tn, err := " + parse + "\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn " + name + "(n)\n}\n")
 
 		//	case "Int32":
 		//		gen.Emit("type " + td.Name + " int\n")
-- 
2.43.0


From 5e7f79a30699669a5ab735a99ea55089e34c4284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:05 +0000
Subject: [PATCH 054/173] fix: generated Go code used undefined types or
 methods for UUID, Bytes, Any, Bool, Timestamp and Decimal types, and crashed
 on types it does not support

---
 golang/export_golang.go | 20 ++++++++++++++++++--
 golang/golang_model.go  | 15 +++++++--------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index f5a9f01..e80959c 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -180,6 +180,15 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 			//			gen.addImport("math/big")
 			return "*" + name
 		}
+	case "UUID":
+		return "string"
+	case "Bytes":
+		return "[]byte"
+	case "Any":
+		return "interface{}"
+	case "Enum", "Struct", "Union":
+		gen.unsupported("inline " + name)
+		return name
 	case "Array":
 		its := gen.Model.FindType(ts.Items)
 		return "[]" + gen.nativeTypeName(&its.TypeSpec, ts.Items)
@@ -200,7 +209,7 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 			gen.addImport("github.com/boynton/sadl")
 			return "*sadl." + name
 		} else {
-			//FIXME
+			gen.unsupported(name)
 			return "*" + name
 		}
 	default:
@@ -209,13 +218,20 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 		if td == nil {
 			panic("Unresolved type, parser should have caught this: " + name)
 		}
-		if td.Type == "Struct" {
+		switch td.Type {
+		case "Struct", "Decimal", "Timestamp":
 			name = "*" + name
 		}
 		return name
 	}
 }
 
+func (gen *Generator) unsupported(what string) {
+	if gen.Err == nil {
+		gen.Err = fmt.Errorf("%s types are not supported by the Go generator", what)
+	}
+}
+
 func capitalize(s string) string {
 	return strings.ToUpper(s[0:1]) + s[1:]
 }
diff --git a/golang/golang_model.go b/golang/golang_model.go
index f3a96f7..9771232 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -1,7 +1,6 @@
 package golang
 
 import (
-	"fmt"
 	"strings"
 	"text/template"
 
@@ -116,9 +115,11 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		gen.Emit("type " + td.Name + " string\n")
 	case "UUID":
 		gen.Emit("type " + td.Name + " string //UUID\n")
-	case "Decimal":
-		gen.Emit("type " + td.Name + " Decimal\n")
-		gen.createDecimal = true
+	case "Decimal", "Timestamp":
+		//an alias, to keep the methods that encode it to JSON
+		gen.Emit("type " + td.Name + " = " + strings.TrimPrefix(gen.nativeTypeName(&td.TypeSpec, td.Type), "*") + "\n")
+	case "Bool", "Bytes", "Any":
+		gen.Emit("type " + td.Name + " " + gen.nativeTypeName(&td.TypeSpec, td.Type) + "\n")
 	case "Array":
 		gen.EmitArrayType(td)
 	case "Map":
@@ -136,9 +137,7 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		//	case "Int32":
 		//		gen.Emit("type " + td.Name + " int\n")
 	default:
-		fmt.Println(td.Type)
-		panic("EmitType NYI: " + td.Type)
-		//do nothing, i.e. a String subclass
+		gen.unsupported(td.Type)
 	}
 
 }
@@ -417,5 +416,5 @@ func ParseTimestamp(s string) (Timestamp, error) {
 `
 
 func (gen *Generator) EmitUnitValueType(td *sadl.TypeDef) {
-	panic("emitUnitValueType NYI")
+	gen.unsupported(td.Type)
 }
-- 
2.43.0


From 9ac4f68b9d6336a4fdc3fda5b23827d5ac8f61bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:05 +0000
Subject: [PATCH 055/173] fix: generated Go enums were written as numbers when
 used as map keys

---
 golang/golang_model.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 9771232..f4bddbb 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -236,6 +236,18 @@ func (e {{.Name}}) MarshalJSON() ([]byte, error) {
     return json.Marshal(e.String())
 }
 
+func (e {{.Name}}) MarshalText() ([]byte, error) {
+    return []byte(e.String()), nil
+}
+
+func (e *{{.Name}}) UnmarshalText(b []byte) error {
+    j, err := json.Marshal(string(b))
+    if err != nil {
+        return err
+    }
+    return e.UnmarshalJSON(j)
+}
+
 func (e *{{.Name}}) UnmarshalJSON(b []byte) error {
     var s string
     err := json.Unmarshal(b, &s)
-- 
2.43.0


From 3e9453553e892fbb5a20820935824af750428633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:05 +0000
Subject: [PATCH 056/173] fix: generated Go code lost digits of JSON decimals
 and the zone of timestamps

---
 golang/golang_model.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index f4bddbb..3dbdc55 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -301,10 +301,10 @@ func (d *Decimal) UnmarshalJSON(b []byte) error {
 			return nil
 		}
 	} else {
-		var floatRepr float64
-		err = json.Unmarshal(b, &floatRepr)
+		var num *Decimal
+		num, err = ParseDecimal(string(b))
 		if err == nil {
-         *d = *NewDecimal(floatRepr)
+			*d = *num
 			return nil
 		}
 	}
@@ -373,12 +373,13 @@ type Timestamp struct {
 	time.Time
 }
 
-const RFC3339Milli = "%d-%02d-%02dT%02d:%02d:%02d.%03dZ"
+const RFC3339Milli = "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ"
 
 func (ts Timestamp) String() string {
 	if ts.IsZero() {
 		return ""
 	}
+	ts.Time = ts.UTC()
 	return fmt.Sprintf(RFC3339Milli, ts.Year(), ts.Month(), ts.Day(), ts.Hour(), ts.Minute(), ts.Second(), ts.Nanosecond()/1000000)
 }
 
-- 
2.43.0


From 9f7a41878b67c458b3fa35b3e398df8791e46ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:24 +0000
Subject: [PATCH 057/173] fix: generated Go handlers did not compile with both
 query and body inputs, or without outputs

---
 golang/golang_server.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 83ffab9..bf23147 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -76,7 +76,7 @@ func (gen *Generator) EmitServerAdaptor() {
 			}
 			s := ""
 			if form {
-				s = "\terr := r.ParseForm()\n\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
+				s = "\terr = r.ParseForm()\n\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
 			}
 			for _, in := range hd.Inputs {
 				name := sadl.Capitalize(in.Name)
@@ -87,7 +87,7 @@ func (gen *Generator) EmitServerAdaptor() {
 				} else if in.Path {
 					s = s + "\treq." + name + " = " + gen.paramAccessor(in, fmt.Sprintf("mux.Vars(r)[%q]", in.Name)) + "\n"
 				} else {
-					s = s + "\terr := json.NewDecoder(r.Body).Decode(&req." + name + ")\n"
+					s = s + "\terr = json.NewDecoder(r.Body).Decode(&req." + name + ")\n"
 					s = s + "\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
 				}
 			}
@@ -112,12 +112,10 @@ func (gen *Generator) EmitServerAdaptor() {
 			return s
 		},
 		"expectedResult": func(hd *sadl.HttpDef) string {
-			switch hd.Expected.Status {
-			case 204, 304:
-				return "_"
-			default:
-				return "res"
+			if len(hd.Expected.Outputs) == 0 {
+				return "_, err ="
 			}
+			return "res, err :="
 		},
 		"expectedEntity": func(hd *sadl.HttpDef) string {
 			for _, out := range hd.Expected.Outputs {
@@ -228,9 +226,10 @@ type {{adaptorName}} struct {
 
 {{range .Model.Http}}
 func (handler *{{adaptorName}}) {{methodName .}}Handler(w http.ResponseWriter, r *http.Request) {
+	var err error
 	req := new({{reqTypeName .}})
 {{inputs .}}
-	{{expectedResult .}}, err := handler.impl.{{methodName .}}(req)
+	{{expectedResult .}} handler.impl.{{methodName .}}(req)
 	if err != nil {
 		switch err.(type) {
 {{exceptions .}}		default:
-- 
2.43.0


From c4e7800d237bb7dd3da57590f1841bd7e71943d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:24 +0000
Subject: [PATCH 058/173] fix: generated Go servers did not compile without
 Timestamp inputs, with the runtime, or with Timestamp defaults

---
 golang/golang_server.go | 47 +++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index bf23147..973daf5 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -36,6 +36,9 @@ func (gen *Generator) EmitServerAdaptor() {
 	gen.addImport("strconv")
 	gen.addImport("strings")
 	gen.addImport("time")
+	if gen.runtime && gen.usesTimestamp() {
+		gen.addImport("github.com/boynton/sadl")
+	}
 	funcMap := template.FuncMap{
 		"openBrace":   func() string { return "{" },
 		"backquote":   func() string { return "`" },
@@ -133,10 +136,34 @@ func (gen *Generator) EmitServerAdaptor() {
 			return "func " + name + "(req *" + reqType + ") (*" + resType + ", error)"
 		},
 		"capitalize": func(s string) string { return gen.Capitalize(s) },
+		"runtime": func() string {
+			if gen.runtime {
+				return "sadl."
+			}
+			return ""
+		},
+		"usesTimestamp": gen.usesTimestamp,
 	}
 	gen.EmitTemplate("server", serverTemplate, gen, funcMap)
 }
 
+// usesTimestamp is true if the handlers deal with Timestamps, the type is only declared in that case
+func (gen *Generator) usesTimestamp() bool {
+	for _, hd := range gen.Model.Http {
+		for _, in := range hd.Inputs {
+			if gen.baseType(in.Type) == "Timestamp" {
+				return true
+			}
+		}
+		for _, out := range hd.Expected.Outputs {
+			if gen.baseType(out.Type) == "Timestamp" {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (gen *Generator) paramAccessor(in *sadl.HttpParamSpec, v string) string {
 	coerceTo := gen.nativeType(in.Type)
 	if strings.HasPrefix(coerceTo, "*") {
@@ -199,11 +226,11 @@ func stringDefault(any interface{}) string {
 func timestampDefault(any interface{}) string {
 	switch v := any.(type) {
 	case *sadl.Timestamp:
-		return fmt.Sprintf("%q", v.String())
+		return fmt.Sprintf("timestampDefault(%q)", v.String())
 	case string:
 		ts, err := sadl.ParseTimestamp(v)
 		if err == nil {
-			return fmt.Sprintf("%q", ts.String())
+			return fmt.Sprintf("timestampDefault(%q)", ts.String())
 		}
 	}
 	return "nil"
@@ -268,9 +295,9 @@ func stringParam(val string, def string) string {
 	return val
 }
 
-func timestampParam(val string, def *Timestamp) *Timestamp {
+{{if usesTimestamp}}func timestampParam(val string, def *{{runtime}}Timestamp) *{{runtime}}Timestamp {
 	if val != "" {
-		ts, err := ParseTimestamp(val)
+		ts, err := {{runtime}}ParseTimestamp(val)
 		if err == nil {
 			return &ts
 		}
@@ -278,6 +305,14 @@ func timestampParam(val string, def *Timestamp) *Timestamp {
 	return def
 }
 
+func timestampDefault(val string) *{{runtime}}Timestamp {
+	ts, err := {{runtime}}ParseTimestamp(val)
+	if err != nil {
+		return nil
+	}
+	return &ts
+}
+{{end}}
 func intParam(val string, def int64) int64 {
 	if val != "" {
 		i, err := strconv.ParseInt(val, 10, 64)
@@ -325,9 +360,9 @@ func normalizeHeaderValue(key string, value interface{}) string {
       switch ts := value.(type) {
       case time.Time:
          return timestampRfc2616(ts)
-      case *Timestamp:
+{{if usesTimestamp}}      case *{{runtime}}Timestamp:
          return timestampRfc2616(ts.Time)
-      case string:
+{{end}}      case string:
 			return ts //just trust the application
       default:
          fmt.Sprintf("Noncompliant value for %s header: %v", key, ts)
-- 
2.43.0


From 2c705572084c7037606ad9d1140109b61bd3483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:51 +0000
Subject: [PATCH 059/173] fix: generated Go clients all called themselves
 CrudlClient

---
 golang/golang_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 24ff55a..2c33435 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -164,8 +164,8 @@ type {{clientName}} struct {
 	Target string
 }
 
-func NewClient(target string) (*CrudlClient, error) {
-	return &CrudlClient{
+func NewClient(target string) (*{{clientName}}, error) {
+	return &{{clientName}}{
 		Target: target,
 	}, nil
 }
-- 
2.43.0


From 2e293dfce8146429768bf81c8b620c4dc213437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:44 +0000
Subject: [PATCH 060/173] fix: generated Go clients did not send path and
 header parameters, misnamed and did not escape query parameters, and did not
 compile on their own

---
 golang/golang_client.go | 85 +++++++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 29 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 2c33435..91694fb 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -26,7 +26,7 @@ func (gen *Generator) EmitClient() {
 	gen.addImport("encoding/json")
 	gen.addImport("fmt")
 	gen.addImport("net/http")
-	//	gen.addImport("net/url")
+	gen.addImport("net/url")
 	gen.addImport("strings")
 	//	gen.addImport("time")
 	funcMap := template.FuncMap{
@@ -51,18 +51,40 @@ func (gen *Generator) EmitClient() {
 				for _, in := range hd.Inputs {
 					if !in.Path && in.Query == "" && in.Header == "" {
 						gen.addImport("bytes")
-						return "bytes.NewReader([]byte(Json(req." + sadl.Capitalize(in.Name) + ")))"
+						return "bytes.NewReader(body)"
 					}
 				}
 			}
 			return "nil"
 		},
+		"reqBody": func(hd *sadl.HttpDef) string {
+			switch hd.Method {
+			case "PUT", "POST", "PATCH":
+				for _, in := range hd.Inputs {
+					if !in.Path && in.Query == "" && in.Header == "" {
+						return "\tbody, err := json.Marshal(req." + sadl.Capitalize(in.Name) + ")\n\tif err != nil {\n\t\treturn nil, err\n\t}\n"
+					}
+				}
+			}
+			return ""
+		},
 		"queryParams": func(hd *sadl.HttpDef) string {
 			s := ""
 			for _, in := range hd.Inputs {
 				if in.Query != "" {
 					s = s + "\tif req." + sadl.Capitalize(in.Name) + " != " + gen.notSet(in.Type) + " {\n"
-					s = s + "\t\targs = append(args, fmt.Sprintf(\"" + in.Name + "=" + gen.typeFormat(in.Type) + "\", req." + sadl.Capitalize(in.Name) + "))\n"
+					s = s + "\t\targs = append(args, \"" + in.Query + "=\" + url.QueryEscape(fmt.Sprint(req." + sadl.Capitalize(in.Name) + ")))\n"
+					s = s + "\t}\n"
+				}
+			}
+			return s
+		},
+		"headerParams": func(hd *sadl.HttpDef) string {
+			s := ""
+			for _, in := range hd.Inputs {
+				if in.Header != "" {
+					s = s + "\tif req." + sadl.Capitalize(in.Name) + " != " + gen.notSet(in.Type) + " {\n"
+					s = s + "\t\threq.Header.Set(" + fmt.Sprintf("%q", in.Header) + ", fmt.Sprint(req." + sadl.Capitalize(in.Name) + "))\n"
 					s = s + "\t}\n"
 				}
 			}
@@ -78,6 +100,12 @@ func (gen *Generator) EmitClient() {
 			if i >= 0 {
 				path = path[0:i]
 			}
+			path = fmt.Sprintf("%q", path)
+			for _, in := range hd.Inputs {
+				if in.Path {
+					path = strings.Replace(path, "{"+in.Name+"}", "\" + url.PathEscape(fmt.Sprint(req."+sadl.Capitalize(in.Name)+")) + \"", -1)
+				}
+			}
 			return path
 		},
 		"expectedResults": func(hd *sadl.HttpDef) string {
@@ -89,7 +117,7 @@ func (gen *Generator) EmitClient() {
 			//			}
 			s = s + "\t\tresponse := &" + sadl.Capitalize(hd.Name) + "Response{}\n"
 			for _, out := range hd.Expected.Outputs {
-				natType := gen.nativeType(out.Type)
+				natType := gen.nativeTypeName(&out.TypeSpec, out.Type)
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
 					s = s + "\t\tvar entity " + natType + "\n"
@@ -100,12 +128,22 @@ func (gen *Generator) EmitClient() {
 					s = s + "\t\tresponse." + name + " = entity\n"
 				} else {
 					i := "res.Header.Get(" + fmt.Sprintf("%q", out.Header) + ")" //fold header name consistently?
-					switch natType {
-					case "*Timestamp":
-						i = "TimestampFromString(" + i + ")"
+					switch base := gen.baseType(out.Type); base {
+					case "Timestamp":
+						parse := "ParseTimestamp"
+						if gen.runtime {
+							parse = "sadl.ParseTimestamp"
+							gen.addImport("github.com/boynton/sadl")
+						}
+						s = s + "\t\tif ts, err := " + parse + "(" + i + "); err == nil {\n\t\t\tresponse." + name + " = &ts\n\t\t}\n"
+					case "Int8", "Int16", "Int32", "Int64":
+						gen.addImport("strconv")
+						s = s + "\t\tif n, err := strconv.ParseInt(" + i + ", 10, " + base[3:] + "); err == nil {\n\t\t\tresponse." + name + " = " + natType + "(n)\n\t\t}\n"
+					case "String", "UUID":
+						s = s + "\t\tresponse." + name + " = " + natType + "(" + i + ")\n"
 					default:
+						gen.unsupported("header " + base)
 					}
-					s = s + "\t\tresponse." + name + " = " + i + "\n"
 				}
 			}
 			s = s + "\t\treturn response, nil\n"
@@ -132,11 +170,11 @@ func (gen *Generator) EmitClient() {
 func (gen *Generator) notSet(sadlType string) string {
 	bt := gen.baseType(sadlType)
 	switch bt {
-	case "String":
+	case "String", "UUID":
 		return `""`
-	case "Int8", "Int16", "Int32", "Int64":
+	case "Int8", "Int16", "Int32", "Int64", "Enum":
 		return "0"
-	case "Float32", "Float64", "Decimal":
+	case "Float32", "Float64":
 		return "0.0"
 	case "Bool":
 		return "false"
@@ -145,21 +183,10 @@ func (gen *Generator) notSet(sadlType string) string {
 	}
 }
 
-func (gen *Generator) typeFormat(sadlType string) string {
-	bt := gen.baseType(sadlType)
-	switch bt {
-	case "String":
-		return "%s"
-	case "Int8", "Int16", "Int32", "Int64":
-		return "%d"
-	case "Float32", "Float64", "Decimal":
-		return "&g"
-	default:
-		return "%v"
-	}
-}
-
 var clientTemplate = `
+//not every set of actions needs all of these
+var _ = []interface{}{fmt.Sprint, http.NewRequest, json.Marshal, strings.Join, url.QueryEscape}
+
 type {{clientName}} struct {
 	Target string
 }
@@ -171,17 +198,17 @@ func NewClient(target string) (*{{clientName}}, error) {
 }
 {{range .Model.Http}}
 func (client *{{clientName}}) {{methodSignature .}} {
-	url := client.Target + "{{methodPath .}}"
+	target := client.Target + {{methodPath .}}
 	var args []string
 {{queryParams .}}	if len(args) > 0 {
-		url = url + "?" + strings.Join(args, "&")
+		target = target + "?" + strings.Join(args, "&")
 	}
-	hreq, err := http.NewRequest("{{.Method}}", url, {{reqBodyReader .}})
+{{reqBody .}}	hreq, err := http.NewRequest("{{.Method}}", target, {{reqBodyReader .}})
 	if err != nil {
 		return nil, err
 	}
 {{requestEntityContentType .}}
-	res, err := http.DefaultClient.Do(hreq)
+{{headerParams .}}	res, err := http.DefaultClient.Do(hreq)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 34b914ed7939e325deef736193825f4d8142f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:07 +0000
Subject: [PATCH 061/173] fix: http-trace crashed on examples that are not
 objects and exited the process on an error

---
 httptrace/export_http_examples.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 1658685..e1a7f3d 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -3,7 +3,6 @@ package httptrace
 import (
 	"fmt"
 	"net/http"
-	"os"
 	"strings"
 	"time"
 
@@ -14,8 +13,7 @@ func Export(model *sadl.Model, conf *sadl.Data) error {
 	for _, hdef := range model.Http {
 		snippet, err := generateHttpTrace(model, hdef)
 		if err != nil {
-			fmt.Println("*** Error:", err)
-			os.Exit(1)
+			return err
 		}
 		fmt.Println(snippet)
 	}
@@ -48,7 +46,10 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 	//each named example should be a pair of req/res, or req/exc
 	for _, ex := range examples {
 		if ex.Target == reqType {
-			tmp := ex.Example.(map[string]interface{})
+			tmp, ok := ex.Example.(map[string]interface{})
+			if !ok {
+				return "", fmt.Errorf("Example %q of %s is not an object", ex.Name, ex.Target)
+			}
 			namedExamples[ex.Name] = &exampleData{req: tmp}
 		}
 	}
@@ -56,11 +57,19 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 		if ex.Target != reqType {
 			if data, ok := namedExamples[ex.Name]; ok {
 				if ex.Target == resType {
-					data.res = ex.Example.(map[string]interface{})
+					tmp, ok := ex.Example.(map[string]interface{})
+					if !ok {
+						return "", fmt.Errorf("Example %q of %s is not an object", ex.Name, ex.Target)
+					}
+					data.res = tmp
 				} else {
 					for _, exc := range hdef.Exceptions {
 						if exc.Type == ex.Target {
-							data.res = ex.Example.(map[string]interface{})
+							tmp, ok := ex.Example.(map[string]interface{})
+							if !ok {
+								return "", fmt.Errorf("Example %q of %s is not an object", ex.Name, ex.Target)
+							}
+							data.res = tmp
 							data.exc = exc
 						}
 					}
-- 
2.43.0


From b1bf21170647c6b27bc42bf71b511be08896376e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:07 +0000
Subject: [PATCH 062/173] fix: http-trace printed the examples in random order

---
 httptrace/export_http_examples.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index e1a7f3d..8c318f8 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -41,6 +41,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 	reqType := sadl.Capitalize(hdef.Name) + "Request"
 	resType := sadl.Capitalize(hdef.Name) + "Response"
 	namedExamples := make(map[string]*exampleData, 0)
+	var names []string //in the order of the examples
 	var reqExample, resExample map[string]interface{}
 
 	//each named example should be a pair of req/res, or req/exc
@@ -50,6 +51,9 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			if !ok {
 				return "", fmt.Errorf("Example %q of %s is not an object", ex.Name, ex.Target)
 			}
+			if _, ok := namedExamples[ex.Name]; !ok {
+				names = append(names, ex.Name)
+			}
 			namedExamples[ex.Name] = &exampleData{req: tmp}
 		}
 	}
@@ -78,7 +82,8 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 		}
 	}
 	body := ""
-	for exName, data := range namedExamples {
+	for _, exName := range names {
+		data := namedExamples[exName]
 		reqExample = data.req
 		resExample = data.res
 		body = body + "#\n# " + exName + " (action=" + hdef.Name + ")\n#\n"
-- 
2.43.0


From 2d546d2b8432475920ea9dddbebcf2278cf49bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:07 +0000
Subject: [PATCH 063/173] fix: http-trace left out booleans, and all the values
 of models loaded from JSON

---
 httptrace/export_http_examples.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 8c318f8..7e3a6e1 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -26,8 +26,13 @@ func stringExample(ex interface{}) string {
 		return *v
 	case *sadl.Decimal:
 		return v.String()
+	case string:
+		return v
+	case nil:
+		return ""
+	default:
+		return strings.TrimSpace(sadl.Pretty(v))
 	}
-	return ""
 }
 
 type exampleData struct {
-- 
2.43.0


From 20e992515601d81564c62c70f2d242e1f19e6344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:07 +0000
Subject: [PATCH 064/173] fix: http-trace did not escape path and query values

---
 httptrace/export_http_examples.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 7e3a6e1..ad5c3b8 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -3,6 +3,7 @@ package httptrace
 import (
 	"fmt"
 	"net/http"
+	"net/url"
 	"strings"
 	"time"
 
@@ -105,7 +106,9 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 				if in.Path || in.Query != "" {
 					sex := stringExample(ex)
 					if in.Path {
-						//inExample = urlEncode(inExample)
+						sex = url.PathEscape(sex)
+					} else {
+						sex = url.QueryEscape(sex)
 					}
 					path = strings.Replace(path, "{" + in.Name + "}", sex, -1)
 				} else if in.Header != "" {
-- 
2.43.0


From 3f3beabdaf1018836da5eebb08bee1a7362e4112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:07 +0000
Subject: [PATCH 065/173] fix: http-trace printed headers and bodies that are
 not in the example

---
 httptrace/export_http_examples.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index ad5c3b8..15ddec9 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -111,6 +111,8 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 						sex = url.QueryEscape(sex)
 					}
 					path = strings.Replace(path, "{" + in.Name + "}", sex, -1)
+				} else if ex == nil {
+					//optional, and not in the example
 				} else if in.Header != "" {
 					sex := stringExample(ex)
 					headers = headers + in.Header + ": " + sex + "\n"
@@ -133,11 +135,13 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 				if data.exc == nil {
 					for _, out := range hdef.Expected.Outputs {
 						ex := resExample[out.Name]
-						if out.Header != "" {
+						if ex == nil {
+							//optional, and not in the example
+						} else if out.Header != "" {
 							sex := stringExample(ex)
 							headers = headers + out.Header + ": " + sex + "\n"
 						} else { //body
-							if status != 204 {
+							if status != 204 && status != 304 {
 								bodyExample = sadl.Pretty(ex)
 							}
 						}
-- 
2.43.0


From 38153dd5f595925601fd0ca1b1bb7b623fae7c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:07 +0000
Subject: [PATCH 066/173] fix: http-trace labelled the local time as GMT

---
 httptrace/export_http_examples.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 15ddec9..e187b6f 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -162,8 +162,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 }
 
 func dateHeader() string {
-	t := time.Now()
-	return t.Format("Mon, 2 Jan 2006 15:04:05 GMT")
+	return time.Now().UTC().Format(http.TimeFormat)
 }
 
 func stripMissingOptionalQueryParams(uri string) string {
-- 
2.43.0


From f9f369bd13ea967f0ba97c6fd3632a93269521b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:16 +0000
Subject: [PATCH 067/173] fix: Java generation ignored the domain option, and
 the name option in servers and clients

---
 java/export_java.go |  2 +-
 java/java_client.go |  2 +-
 java/java_server.go | 10 +++++++---
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index f760c26..3ee07ef 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -97,7 +97,7 @@ func (gen *Generator) AddImport(fullReference string) {
 func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generator {
 	gen := &Generator{}
 	gen.Config = config
-	domain := gen.Config.GetString("domain", "-")
+	domain := gen.Config.GetString("domain")
 	if domain == "" {
 		if model.Namespace != "" {
 			domain = strings.Join(reverseStrings(strings.Split(model.Namespace, ".")), ".")
diff --git a/java/java_client.go b/java/java_client.go
index a2fac2d..cc38048 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -37,7 +37,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 	if gen.Err != nil {
 		return
 	}
-	serviceName := gen.Capitalize(gen.Model.Name)
+	serviceName := gen.Name
 	rootPath := gen.Model.Base
 	if rootPath == "" {
 		rootPath = "/"
diff --git a/java/java_server.go b/java/java_server.go
index a63b750..b5f412b 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -45,6 +45,9 @@ func (gen *Generator) CreateServer() {
 		return
 	}
 	gen.CreateServerDataAndFuncMap(src, rez)
+	if gen.Err != nil {
+		return
+	}
 	gen.CreateJavaFileFromTemplate(gen.ServerData.ResourcesClass, resourcesTemplate, gen.ServerData, gen.ServerData.Funcs, gen.ServerPackage)
 	if gen.ServerImpl {
 		gen.CreateJavaFileFromTemplate(gen.ServerData.MainClass, mainTemplate, gen.ServerData, gen.ServerData.Funcs, "")
@@ -77,10 +80,11 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 	if gen.ServerData != nil {
 		return
 	}
-	if gen.Model.Name == "" {
-		panic("no model name!")
+	if gen.Name == "" {
+		gen.Err = fmt.Errorf("No service name: it is neither in the model nor in the configuration")
+		return
 	}
-	serviceName := gen.Capitalize(gen.Model.Name)
+	serviceName := gen.Name
 	rootPath := gen.Model.Base
 	if rootPath == "" {
 		rootPath = "/"
-- 
2.43.0


From 5de9fd26baa8b82f8573d3ec2e4fb042e11e6499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:16 +0000
Subject: [PATCH 068/173] fix: the generated Java Timestamp class was not in
 the package that uses it

---
 java/java_timestamp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/java_timestamp.go b/java/java_timestamp.go
index ecfbb07..41048ea 100644
--- a/java/java_timestamp.go
+++ b/java/java_timestamp.go
@@ -50,7 +50,7 @@ func (gen *Generator) CreateTimestamp() {
 	gen.Emit(javaTimestamp)
 	result := gen.End()
 	if gen.Err == nil {
-		gen.WriteJavaFile("Timestamp", result, gen.Package)
+		gen.WriteJavaFile("Timestamp", result, gen.ModelPackage)
 	}
 }
 
-- 
2.43.0


From b31c8bfeb3fcf66329cf154977528cf542da6fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:16 +0000
Subject: [PATCH 069/173] fix: generated Java classes with numeric limits did
 not compile, and required fields lost them

---
 java/export_java.go | 64 ++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 3ee07ef..f5b2215 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -654,7 +655,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	var annotations []string
 	if required {
 		if isPrimitive {
-			return primitiveName, nil, nil
+			return primitiveName, gen.limitAnnotations(ts), nil
 		}
 		gen.AddImport("javax.validation.constraints.NotNull")
 		annotations = append(annotations, "@NotNull")
@@ -694,24 +695,12 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		}
 		return "String", annotations, nil
 	case "Byte", "Short", "Integer", "Long", "Float", "Double":
-		if ts != nil {
-			if ts.Min != nil {
-				annotations = append(annotations, fmt.Sprintf("@Min(%s)", ts.Min.String()))
-			}
-			if ts.Max != nil {
-				annotations = append(annotations, fmt.Sprintf("@Max(%s)", ts.Max.String()))
-			}
-		}
+		annotations = append(annotations, gen.limitAnnotations(ts)...)
 		return name, annotations, nil
 	case "Decimal":
 		gen.AddImport("java.math.BigDecimal")
 		if ts != nil {
-			if ts.Min != nil {
-				annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", ts.Min.String()))
-			}
-			if ts.Max != nil {
-				annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", ts.Max.String()))
-			}
+			annotations = append(annotations, gen.decimalLimitAnnotations(ts)...)
 		}
 		return "BigDecimal", annotations, nil
 	case "Timestamp":
@@ -771,12 +760,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 				return "UUID", annotations, nil
 			case "Decimal":
 				gen.AddImport("java.math.BigDecimal")
-				if td.Min != nil {
-					annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", td.Min.String()))
-				}
-				if td.Max != nil {
-					annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", td.Max.String()))
-				}
+				annotations = append(annotations, gen.decimalLimitAnnotations(&td.TypeSpec)...)
 				return "BigDecimal", annotations, nil
 			case "Timestamp":
 				if gen.UseInstants {
@@ -797,6 +781,44 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	}
 }
 
+// limitAnnotations returns the annotations for the limits of a primitive type. The arguments of Min and Max are longs,
+// other limits have to be written as decimals.
+func (gen *Generator) limitAnnotations(ts *sadl.TypeSpec) []string {
+	if ts == nil {
+		return nil
+	}
+	var annotations []string
+	for _, limit := range []*sadl.Decimal{ts.Min, ts.Max} {
+		if limit != nil {
+			if _, err := strconv.ParseInt(limit.String(), 10, 64); err != nil {
+				return gen.decimalLimitAnnotations(ts)
+			}
+		}
+	}
+	if ts.Min != nil {
+		gen.AddImport("javax.validation.constraints.Min")
+		annotations = append(annotations, fmt.Sprintf("@Min(%sL)", ts.Min.String()))
+	}
+	if ts.Max != nil {
+		gen.AddImport("javax.validation.constraints.Max")
+		annotations = append(annotations, fmt.Sprintf("@Max(%sL)", ts.Max.String()))
+	}
+	return annotations
+}
+
+func (gen *Generator) decimalLimitAnnotations(ts *sadl.TypeSpec) []string {
+	var annotations []string
+	if ts.Min != nil {
+		gen.AddImport("javax.validation.constraints.DecimalMin")
+		annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", ts.Min.String()))
+	}
+	if ts.Max != nil {
+		gen.AddImport("javax.validation.constraints.DecimalMax")
+		annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", ts.Max.String()))
+	}
+	return annotations
+}
+
 func javaPackageToPath(pkg string) string {
 	return strings.Join(strings.Split(pkg, "."), "/")
 }
-- 
2.43.0


From 2cb0bb1086c9afb3f4fdc6836b5d98eb0cbe22cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:45 +0000
Subject: [PATCH 070/173] fix: Java generation used undefined classes for
 Bytes, Bool and Any types and lower case names, and crashed on or
 misrepresented types it does not support

---
 java/export_java.go | 57 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index f5b2215..82603fc 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -39,6 +39,7 @@ type Generator struct {
 	NeedInstant      bool
 	NeedUtil         bool
 	imports          []string
+	items            map[string]bool
 	ServerData       *ServerData
 	ClientData       *ClientData
 }
@@ -227,7 +228,11 @@ func (gen *Generator) CreatePojo(ts *sadl.TypeSpec, className, comment string, e
 
 func reservedKeyword(name string) bool {
 	switch name {
-	case "package":
+	case "abstract", "assert", "boolean", "break", "byte", "case", "catch", "char", "class", "const", "continue",
+		"default", "do", "double", "else", "enum", "extends", "false", "final", "finally", "float", "for", "goto", "if",
+		"implements", "import", "instanceof", "int", "interface", "long", "native", "new", "null", "package", "private",
+		"protected", "public", "return", "short", "static", "strictfp", "super", "switch", "synchronized", "this",
+		"throw", "throws", "transient", "true", "try", "void", "volatile", "while":
 		return true
 	}
 	return false
@@ -294,7 +299,8 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	for _, fd := range ts.Fields {
 		fname := fd.Name
 		if reservedKeyword(fname) {
-			panic("bad field name, clashes with a keyword: " + fname)
+			gen.Err = fmt.Errorf("Bad field name, clashes with a keyword: %s", fname)
+			return
 		}
 		if fd.Comment != "" {
 			gen.Emit(gen.FormatComment(indent+"    ", fd.Comment, 100, false))
@@ -720,22 +726,18 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		if ts == nil {
 			return "List", annotations, nil
 		}
-		td := gen.Model.FindType(ts.Items)
-		items, _, _ := gen.TypeName(&td.TypeSpec, ts.Items, false)
-		return "List<" + items + ">", annotations, nil
+		return "List<" + gen.itemTypeName(ts.Items) + ">", annotations, nil
 	case "Map":
 		gen.AddImport("java.util.Map")
 		if ts == nil {
 			return "Map", annotations, nil
 		}
-		ktd := gen.Model.FindType(ts.Keys)
-		keys, _, _ := gen.TypeName(&ktd.TypeSpec, ts.Keys, false)
-		itd := gen.Model.FindType(ts.Items)
-		items, _, _ := gen.TypeName(&itd.TypeSpec, ts.Items, false)
-		return "Map<" + keys + "," + items + ">", annotations, nil
+		return "Map<" + gen.itemTypeName(ts.Keys) + "," + gen.itemTypeName(ts.Items) + ">", annotations, nil
 	case "UUID":
 		gen.AddImport("java.util.UUID")
 		return name, annotations, nil
+	case "Bytes":
+		return "byte[]", annotations, nil
 	case "Any":
 		return "Object", annotations, nil
 	default:
@@ -743,18 +745,22 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		td := gen.Model.FindType(name)
 		if td != nil {
 			switch td.Type {
-			case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Boolean":
+			case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Bool", "Bytes", "Any":
 				return gen.TypeName(&td.TypeSpec, td.Type, required)
 			case "String":
 				return gen.TypeName(&td.TypeSpec, "String", required)
 			case "Array":
-				return gen.TypeName(&td.TypeSpec, "Array", false) //FIXME: the "required/optional" state of the field is lost
+				return gen.TypeName(&td.TypeSpec, "Array", required)
 			case "Map":
-				return gen.TypeName(&td.TypeSpec, "Map", false) //FIXME: the "required/optional" state of the field is lost
+				return gen.TypeName(&td.TypeSpec, "Map", required)
 			case "Struct":
 				if name == "Struct" {
 					return name, annotations, ts
 				}
+			case "UnitValue", "Union", "Enum":
+				if name == td.Type {
+					gen.Err = fmt.Errorf("Inline %s is not supported, define a type for it", name)
+				}
 			case "UUID":
 				gen.AddImport("java.util.UUID")
 				return "UUID", annotations, nil
@@ -777,8 +783,31 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 				return "Timestamp", annotations, nil
 			}
 		}
-		return name, annotations, nil
+		return gen.Capitalize(name), annotations, nil
+	}
+}
+
+// itemTypeName is the name of the type of the items or keys of a collection
+func (gen *Generator) itemTypeName(name string) string {
+	if name == "" {
+		return "Object"
+	}
+	if gen.items == nil {
+		gen.items = make(map[string]bool, 0)
+	}
+	if gen.items[name] {
+		gen.Err = fmt.Errorf("A collection that contains itself is not supported: %s", name)
+		return "Object"
+	}
+	td := gen.Model.FindType(name)
+	if td == nil {
+		gen.Err = fmt.Errorf("Undefined type: %s", name)
+		return "Object"
 	}
+	gen.items[name] = true
+	tn, _, _ := gen.TypeName(&td.TypeSpec, name, false)
+	delete(gen.items, name)
+	return tn
 }
 
 // limitAnnotations returns the annotations for the limits of a primitive type. The arguments of Min and Max are longs,
-- 
2.43.0


From 8ff14b5471a53c173c0c825319fca97d21cfbb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:47 +0000
Subject: [PATCH 071/173] fix: generated Java classes with inline structs or
 enums did not compile or had no type for them, and were in random order

---
 java/export_java.go | 56 +++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 82603fc..600d002 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -295,7 +295,7 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	} else {
 		gen.Emit(indent + "public static class " + className + extends + " {\n")
 	}
-	nested := make(map[string]*sadl.TypeSpec, 0)
+	var nested []*sadl.TypeDef
 	for _, fd := range ts.Fields {
 		fname := fd.Name
 		if reservedKeyword(fname) {
@@ -315,7 +315,7 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 				gen.Err = fmt.Errorf("Cannot have identically named inner class with same name as containing class: %q", tn)
 				return
 			}
-			nested[tn] = anonymous
+			nested = append(nested, &sadl.TypeDef{Name: tn, TypeSpec: *anonymous})
 		}
 		if tanno != nil {
 			for _, anno := range tanno {
@@ -348,11 +348,7 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
     }
 `)
 		}
-		if len(nested) > 0 {
-			for iname, ispec := range nested {
-				gen.CreateStructPojo(ispec, iname, indent+"    ", nil)
-			}
-		}
+		gen.CreateNestedPojos(nested, indent+"    ")
 	}
 	gen.Emit("}\n")
 }
@@ -360,7 +356,7 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSpec, indent string) {
 	var args []string
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn := gen.memberTypeName(fd.Name, &fd.TypeSpec, fd.Required)
 		args = append(args, tn+" "+fd.Name)
 	}
 	gen.Emit(indent + "    public " + className + "(" + strings.Join(args, ", ") + ") {\n")
@@ -371,7 +367,7 @@ func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSp
 }
 
 func (gen *Generator) EmitGetter(className string, ts *sadl.TypeSpec, fd *sadl.StructFieldDef, indent string) {
-	tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+	tn := gen.memberTypeName(fd.Name, &fd.TypeSpec, fd.Required)
 	gen.Emit(indent + "    public " + tn + " get" + gen.Capitalize(fd.Name) + "() {\n")
 	gen.Emit(indent + "        return " + fd.Name + ";\n")
 	gen.Emit(indent + "    }\n\n")
@@ -388,7 +384,7 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	gen.Emit(indent + "@JsonPOJOBuilder(withPrefix=\"\")\n")
 	gen.Emit(indent + "public static class " + builderClass + " {\n")
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn := gen.memberTypeName(fd.Name, &fd.TypeSpec, fd.Required)
 		gen.Emit(indent + "    private " + tn + " " + fd.Name + ";\n")
 	}
 	gen.Emit("\n")
@@ -401,7 +397,7 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	gen.Emit(indent + "    }\n\n")
 	var args []string
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn := gen.memberTypeName(fd.Name, &fd.TypeSpec, fd.Required)
 		if fd.Type == "Timestamp" {
 			if gen.UseInstants {
 				gen.NeedUtil = true
@@ -503,7 +499,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 	gen.Emit(indent1 + "}\n\n")
 	gen.Emit(indent1 + "@JsonIgnore\n")
 	gen.Emit(indent1 + "public " + variantType + " variant;\n\n")
-	nested := make(map[string]*sadl.TypeSpec, 0)
+	var nested []*sadl.TypeDef
 	for _, vd := range td.Variants {
 		gen.Emit(indent1 + "@JsonInclude(JsonInclude.Include.NON_EMPTY)\n")
 
@@ -517,7 +513,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 				gen.Err = fmt.Errorf("Cannot have identically named inner class with same name as containing class: %q", tn)
 				return
 			}
-			nested[tn] = anonymous
+			nested = append(nested, &sadl.TypeDef{Name: tn, TypeSpec: *anonymous})
 		}
 		if tanno != nil {
 			for _, anno := range tanno {
@@ -535,7 +531,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 		if i == max-1 {
 			delim = ""
 		}
-		tn, _, _ := gen.TypeName(&vd.TypeSpec, vd.Type, false)
+		tn := gen.memberTypeName(vd.Name, &vd.TypeSpec, false)
 		gen.Emit("@JsonProperty(\"" + vd.Name + "\") " + tn + " " + vd.Name + delim)
 	}
 	gen.Emit(") {\n")
@@ -548,7 +544,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 	gen.Emit(indent1 + "}\n\n")
 
 	for _, vd := range td.Variants {
-		tn, _, _ := gen.TypeName(&vd.TypeSpec, vd.Type, false)
+		tn := gen.memberTypeName(vd.Name, &vd.TypeSpec, false)
 		gen.Emit("\n" + indent1 + "public static " + className + " of" + gen.Capitalize(vd.Name) + "(" + tn + " v) {\n")
 		gen.Emit(indent2 + "return new " + className + "(")
 		delim = ", "
@@ -574,12 +570,28 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
     }
 `)
 	}
-	if len(nested) > 0 {
-		for iname, ispec := range nested {
-			gen.CreateStructPojo(ispec, iname, indent1, nil)
+	gen.CreateNestedPojos(nested, indent1)
+	gen.Emit("}\n")
+}
+
+// CreateNestedPojos emits the inner classes for the inline types of a class, in the order they are used
+func (gen *Generator) CreateNestedPojos(nested []*sadl.TypeDef, indent string) {
+	for _, td := range nested {
+		if td.Type == "Enum" {
+			gen.CreateEnumPojo(&td.TypeSpec, td.Name)
+		} else {
+			gen.CreateStructPojo(&td.TypeSpec, td.Name, indent, nil)
 		}
 	}
-	gen.Emit("}\n")
+}
+
+// memberTypeName is the type of the field or variant of a class. An inline type is an inner class named after it.
+func (gen *Generator) memberTypeName(name string, ts *sadl.TypeSpec, required bool) string {
+	tn, _, anonymous := gen.TypeName(ts, ts.Type, required)
+	if anonymous != nil {
+		return gen.Capitalize(name)
+	}
+	return tn
 }
 
 func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string) {
@@ -757,7 +769,11 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 				if name == "Struct" {
 					return name, annotations, ts
 				}
-			case "UnitValue", "Union", "Enum":
+			case "Enum":
+				if name == "Enum" {
+					return name, annotations, ts
+				}
+			case "UnitValue", "Union":
 				if name == td.Type {
 					gen.Err = fmt.Errorf("Inline %s is not supported, define a type for it", name)
 				}
-- 
2.43.0


From e396ec44be08b2294798184d8ebb41be73380a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:47 +0000
Subject: [PATCH 072/173] fix: generated Java exceptions with a message and
 other fields lost the message in JSON, and those without fields exposed the
 stack trace

---
 java/export_java.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 600d002..d0d7b75 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -269,11 +269,15 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	if extends != "" {
 		var ignoreFields []string
 		for _, f := range []string{"message", "stackTrace", "cause", "localizedMessage", "suppressed"} {
+			ignore := true
 			for _, fd := range ts.Fields {
-				if fd.Name != f {
-					ignoreFields = append(ignoreFields, fmt.Sprintf("%q", f))
+				if fd.Name == f {
+					ignore = false
 				}
 			}
+			if ignore {
+				ignoreFields = append(ignoreFields, fmt.Sprintf("%q", f))
+			}
 		}
 		gen.AddImport("com.fasterxml.jackson.annotation.JsonIgnoreProperties")
 		gen.Emit(indent + "@JsonIgnoreProperties({" + strings.Join(ignoreFields, ", ") + "})\n")
-- 
2.43.0


From f37c8a1640d04d4c7deb06ee756128c0d7cb2c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:47 +0000
Subject: [PATCH 073/173] fix: generated Java classes changed the JSON name of
 fields with a capital as first or second letter

---
 java/export_java.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/export_java.go b/java/export_java.go
index d0d7b75..27c7248 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -372,6 +372,8 @@ func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSp
 
 func (gen *Generator) EmitGetter(className string, ts *sadl.TypeSpec, fd *sadl.StructFieldDef, indent string) {
 	tn := gen.memberTypeName(fd.Name, &fd.TypeSpec, fd.Required)
+	gen.AddImport("com.fasterxml.jackson.annotation.JsonProperty")
+	gen.Emit(indent + "    @JsonProperty(\"" + fd.Name + "\")\n")
 	gen.Emit(indent + "    public " + tn + " get" + gen.Capitalize(fd.Name) + "() {\n")
 	gen.Emit(indent + "        return " + fd.Name + ";\n")
 	gen.Emit(indent + "    }\n\n")
@@ -408,6 +410,7 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 				gen.Emit(indent + "    @JsonDeserialize(using = Util.InstantDeserializer.class)\n")
 			}
 		}
+		gen.Emit(indent + "    @JsonProperty(\"" + fd.Name + "\")\n")
 		gen.Emit(indent + "    public " + builderClass + " " + fd.Name + "(" + tn + " " + fd.Name + ") {\n")
 		gen.Emit(indent + "        this." + fd.Name + " = " + fd.Name + ";\n")
 		gen.Emit(indent + "        return this;\n")
-- 
2.43.0


From 9595d3c66a00cbf10046703c7eb982bf9c2ce565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:47 +0000
Subject: [PATCH 074/173] fix: generated Java classes could not read Timestamps
 in collections, unions, named types or mutable classes

---
 java/export_java.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 27c7248..1d3cfbf 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -404,10 +404,10 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	var args []string
 	for _, fd := range ts.Fields {
 		tn := gen.memberTypeName(fd.Name, &fd.TypeSpec, fd.Required)
-		if fd.Type == "Timestamp" {
-			if gen.UseInstants {
-				gen.NeedUtil = true
-				gen.Emit(indent + "    @JsonDeserialize(using = Util.InstantDeserializer.class)\n")
+		_, tanno, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		for _, anno := range tanno {
+			if strings.HasPrefix(anno, "@JsonDeserialize") {
+				gen.Emit(indent + "    " + anno + "\n")
 			}
 		}
 		gen.Emit(indent + "    @JsonProperty(\"" + fd.Name + "\")\n")
@@ -539,6 +539,12 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 			delim = ""
 		}
 		tn := gen.memberTypeName(vd.Name, &vd.TypeSpec, false)
+		_, tanno, _ := gen.TypeName(&vd.TypeSpec, vd.Type, false)
+		for _, anno := range tanno {
+			if strings.HasPrefix(anno, "@JsonDeserialize") {
+				gen.Emit(anno + " ")
+			}
+		}
 		gen.Emit("@JsonProperty(\"" + vd.Name + "\") " + tn + " " + vd.Name + delim)
 	}
 	gen.Emit(") {\n")
@@ -733,6 +739,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 			gen.AddImport("java.time.Instant")
 			gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonSerialize")
 			gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonDeserialize")
+			annotations = append(annotations, fmt.Sprintf("@JsonDeserialize(using = Util.InstantDeserializer.class)"))
 			annotations = append(annotations, fmt.Sprintf("@JsonSerialize(using = Util.InstantSerializer.class)"))
 			gen.NeedUtil = true
 			gen.NeedInstant = true
@@ -745,13 +752,17 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		if ts == nil {
 			return "List", annotations, nil
 		}
-		return "List<" + gen.itemTypeName(ts.Items) + ">", annotations, nil
+		items := gen.itemTypeName(ts.Items)
+		annotations = append(annotations, gen.instantItemAnnotations(items)...)
+		return "List<" + items + ">", annotations, nil
 	case "Map":
 		gen.AddImport("java.util.Map")
 		if ts == nil {
 			return "Map", annotations, nil
 		}
-		return "Map<" + gen.itemTypeName(ts.Keys) + "," + gen.itemTypeName(ts.Items) + ">", annotations, nil
+		items := gen.itemTypeName(ts.Items)
+		annotations = append(annotations, gen.instantItemAnnotations(items)...)
+		return "Map<" + gen.itemTypeName(ts.Keys) + "," + items + ">", annotations, nil
 	case "UUID":
 		gen.AddImport("java.util.UUID")
 		return name, annotations, nil
@@ -810,6 +821,16 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	}
 }
 
+func (gen *Generator) instantItemAnnotations(items string) []string {
+	if items != "Instant" {
+		return nil
+	}
+	return []string{
+		"@JsonDeserialize(contentUsing = Util.InstantDeserializer.class)",
+		"@JsonSerialize(contentUsing = Util.InstantSerializer.class)",
+	}
+}
+
 // itemTypeName is the name of the type of the items or keys of a collection
 func (gen *Generator) itemTypeName(name string) string {
 	if name == "" {
-- 
2.43.0


From b5ab67c2ea8567bf76e9bbe927deb90fcc9cf0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:47 +0000
Subject: [PATCH 075/173] fix: generated Java unions lost empty variants in
 JSON

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index 1d3cfbf..68d4948 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -508,7 +508,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 	gen.Emit(indent1 + "public " + variantType + " variant;\n\n")
 	var nested []*sadl.TypeDef
 	for _, vd := range td.Variants {
-		gen.Emit(indent1 + "@JsonInclude(JsonInclude.Include.NON_EMPTY)\n")
+		gen.Emit(indent1 + "@JsonInclude(JsonInclude.Include.NON_NULL)\n")
 
 		if vd.Comment != "" {
 			gen.Emit(gen.FormatComment(indent1, vd.Comment, 100, false))
-- 
2.43.0


From 9b0664b89e37b892f7bf950928600e6c780db60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:47 +0000
Subject: [PATCH 076/173] fix: generated Java UnitValue classes did not compile
 on their own and cut units at spaces

---
 java/export_java.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index 68d4948..ed8bc27 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -610,6 +610,7 @@ func (gen *Generator) memberTypeName(name string, ts *sadl.TypeSpec, required bo
 func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string) {
 	gen.AddImport("javax.validation.constraints.NotNull")
 	gen.AddImport("com.fasterxml.jackson.annotation.JsonValue")
+	gen.AddImport("com.fasterxml.jackson.annotation.JsonCreator")
 	gen.Emit("public class " + className + " {\n\n")
 
 	valueType, _, _ := gen.TypeName(ts, ts.Value, true) //this type must be  primitive numeric type
@@ -652,7 +653,7 @@ func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string) {
 	}
 	gen.Emit("    @JsonCreator\n")
 	gen.Emit("    public " + className + "(@NotNull String repr) {\n")
-	gen.Emit("        String[] tmp = repr.split(\" \");\n")
+	gen.Emit("        String[] tmp = repr.split(\" \", 2);\n")
 	gen.Emit("        this.value = " + v + ";\n")
 	gen.Emit("        this.unit = " + u + ";\n")
 	gen.Emit("    }\n\n")
-- 
2.43.0


From 37d0e406a1314abe01b3fd3f4a647a6dfc742322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:47 +0000
Subject: [PATCH 077/173] fix: quotes and special characters in patterns and
 enum values broke the generated Java code

---
 java/export_java.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index ed8bc27..3039d2e 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"strings"
 	"text/template"
+	"unicode/utf16"
 
 	"github.com/boynton/sadl"
 )
@@ -444,7 +445,7 @@ func (gen *Generator) CreateEnumPojo(ts *sadl.TypeSpec, className string) {
 		if val == "" {
 			val = sym
 		}
-		gen.Emit("    " + sym + "(\"" + val + "\")" + delim + comment)
+		gen.Emit("    " + sym + "(" + javaString(val) + ")" + delim + comment)
 	}
 	gen.Emit("\n")
 	gen.Emit("    private String repr;\n\n")
@@ -705,7 +706,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		if ts != nil {
 			if ts.Pattern != "" {
 				gen.AddImport("javax.validation.constraints.Pattern")
-				annotations = append(annotations, fmt.Sprintf("@Pattern(regexp=%q)", ts.Pattern))
+				annotations = append(annotations, fmt.Sprintf("@Pattern(regexp=%s)", javaString(ts.Pattern)))
 			} else if ts.Values != nil {
 				//?
 			}
@@ -893,6 +894,28 @@ func (gen *Generator) decimalLimitAnnotations(ts *sadl.TypeSpec) []string {
 	return annotations
 }
 
+// javaString is the literal for the string, which has fewer escapes than in Go
+func javaString(s string) string {
+	var b strings.Builder
+	b.WriteString("\"")
+	for _, c := range utf16.Encode([]rune(s)) {
+		switch {
+		case c == '"' || c == '\\':
+			b.WriteString("\\" + string(rune(c)))
+		case c == '\n':
+			b.WriteString("\\n")
+		case c == '\r':
+			b.WriteString("\\r")
+		case c < ' ' || c > '~':
+			fmt.Fprintf(&b, "\\u%04x", c)
+		default:
+			b.WriteRune(rune(c))
+		}
+	}
+	b.WriteString("\"")
+	return b.String()
+}
+
 func javaPackageToPath(pkg string) string {
 	return strings.Join(strings.Split(pkg, "."), "/")
 }
-- 
2.43.0


From c784522e1cce4adf9cd9c1619e46010a012fcd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:34 +0000
Subject: [PATCH 078/173] fix: Java servers and clients generated without the
 model did not import it

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index 3039d2e..f7e34ba 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -129,9 +129,9 @@ func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generato
 	gen.Model = model
 	gen.OutDir = outdir
 	gen.EnsurePackageDir(gen.Package)
+	gen.ModelPackage = gen.GetConfigString("model-package", pkg+".model")
 	if gen.GetConfigBool("model", true) {
 		gen.ModelCode = true
-		gen.ModelPackage = gen.GetConfigString("model-package", pkg+".model")
 		gen.EnsurePackageDir(gen.ModelPackage)
 	}
 	if gen.GetConfigBool("server", false) {
-- 
2.43.0


From 12d91b3bae8b84dafa59e9c2aa0e7208b06de1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:34 +0000
Subject: [PATCH 079/173] fix: Java server generation crashed on defaults of
 models loaded from JSON

---
 java/java_server.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/java/java_server.go b/java/java_server.go
index b5f412b..d11e563 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -207,14 +208,17 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				if in.Default != nil {
 					switch b := in.Default.(type) {
 					case *string:
-						param = fmt.Sprintf("@DefaultValue(%q)", *b) + " " + param
+						param = "@DefaultValue(" + javaString(*b) + ") " + param
+					case string:
+						param = "@DefaultValue(" + javaString(b) + ") " + param
 					case *sadl.Decimal:
 						param = fmt.Sprintf("@DefaultValue(%q)", (*b).String()) + " " + param
 					case bool:
 						param = fmt.Sprintf("@DefaultValue(\"%v\")", b) + " " + param
+					case float64:
+						param = fmt.Sprintf("@DefaultValue(%q)", strconv.FormatFloat(b, 'f', -1, 64)) + " " + param
 					default:
-						fmt.Println("Whoops:", sadl.Pretty(in.Default))
-						panic("HERE")
+						gen.Err = fmt.Errorf("Default value of %s not supported: %s", in.Name, sadl.Pretty(in.Default))
 					}
 				}
 				params = append(params, param)
-- 
2.43.0


From d0410d42b5088ff826805ee7ae33beee8c962d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:34 +0000
Subject: [PATCH 080/173] fix: generated Java servers did not compile with
 output headers on mutable classes, or with Decimals

---
 java/java_server.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/java/java_server.go b/java/java_server.go
index d11e563..b822e14 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -256,16 +256,12 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				writer.WriteString("            " + resname + " res = " + implName(iname) + "." + name + "(req);\n")
 				wrappedResult := ""
 				if ename != "void" && ename != "" {
-					if gen.UseImmutable {
-						wrappedResult = gen.jsonWrapper(etype, "res.get"+gen.Capitalize(ename)+"()")
-					} else {
-						wrappedResult = gen.jsonWrapper(etype, "res."+ename)
-					}
+					wrappedResult = gen.jsonWrapper(etype, gen.memberRef("res", ename))
 				}
 				ret := fmt.Sprintf("Response.status(%d)", +hact.Expected.Status)
 				for _, out := range hact.Expected.Outputs {
 					if out.Header != "" {
-						ret = ret + ".header(\"" + out.Header + "\", res.get" + gen.Capitalize(out.Name) + "())"
+						ret = ret + ".header(\"" + out.Header + "\", " + gen.memberRef("res", out.Name) + ")"
 					}
 				}
 				if wrappedResult != "" {
@@ -381,6 +377,7 @@ public class {{.MainClass}} {
 const resourcesTemplate = `
 {{if .ModelPackage}}import {{.ModelPackage}}.*;{{end}}
 import java.util.*;
+import java.math.BigDecimal;
 import java.time.Instant;
 import javax.inject.Inject;
 import javax.ws.rs.*;
@@ -497,6 +494,14 @@ func (gen *Generator) ResponseType(name string) string {
 	return gen.Capitalize(name) + "Response"
 }
 
+// memberRef is the expression for the field of an object of a generated class
+func (gen *Generator) memberRef(obj, name string) string {
+	if gen.UseImmutable {
+		return obj + ".get" + gen.Capitalize(name) + "()"
+	}
+	return obj + "." + name
+}
+
 func (gen *Generator) jsonWrapper(etype string, val string) string {
 	switch etype {
 	case "String":
-- 
2.43.0


From 2743e509497ddbade593ca85bf3fb007bf00e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:34 +0000
Subject: [PATCH 081/173] fix: Java client generation crashed on PATCH, HEAD
 and OPTIONS, and the code did not compile for actions without body or for
 mutable classes

---
 java/java_client.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index cc38048..cdfe775 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -97,7 +97,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			path := pq[0]
 			writer.WriteString("        WebTarget target = client.target(config.getTarget()).path(\"" + path + "\")")
 			for _, in := range hact.Inputs {
-				src := "req.get" + gen.Capitalize(in.Name) + "()"
+				src := gen.memberRef("req", in.Name)
 				if in.Path {
 					writer.WriteString("\n            .resolveTemplate(\"" + in.Name + "\", " + src + ", true)")
 				} else if in.Query != "" {
@@ -107,20 +107,23 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			writer.WriteString(";\n        Invocation.Builder inv = target.request(MediaType.APPLICATION_JSON)")
 			for _, in := range hact.Inputs {
 				if in.Header != "" {
-					src := "req.get" + gen.Capitalize(in.Name) + "()"
+					src := gen.memberRef("req", in.Name)
 					writer.WriteString("\n            .header(\"" + in.Header + "\", " + src + ")")
 				}
 			}
-			switch hact.Method {
-			case "PUT", "POST":
-				ename, _ := gen.ActionInfo(hact)
-				src := "Entity.entity(req.get" + gen.Capitalize(ename) + "(), MediaType.APPLICATION_JSON)"
-				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "(" + src + ");\n")
-			case "GET", "DELETE":
-				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "();\n")
-			default:
-				panic("fix me: method = " + hact.Method)
+			body := ""
+			for _, in := range hact.Inputs {
+				if in.Query == "" && in.Header == "" && !in.Path {
+					body = gen.memberRef("req", in.Name)
+				}
+			}
+			switch {
+			case body != "":
+				body = ", Entity.entity(" + body + ", MediaType.APPLICATION_JSON)"
+			case hact.Method == "PUT" || hact.Method == "POST" || hact.Method == "PATCH":
+				body = ", Entity.text(\"\")" //these methods need an entity
 			}
+			writer.WriteString(";\n        Response response = inv.method(\"" + hact.Method + "\"" + body + ");\n")
 			writer.WriteString("        switch (response.getStatus()) {\n")
 			writer.WriteString("        case " + fmt.Sprint(hact.Expected.Status) + ":\n")
 			if len(hact.Expected.Outputs) == 0 {
-- 
2.43.0


From 0f108ac455b25d7130c0915776c06905832af44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:34 +0000
Subject: [PATCH 082/173] fix: generated Java clients did not compile for
 collection results, result headers that are not strings, mutable classes or
 with service-exception

---
 java/java_client.go | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index cdfe775..10bb50e 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -67,8 +67,14 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 		switch typename {
 		case "Instant":
 			return "Instant.parse(" + val + ")"
-		default:
+		case "Boolean", "Byte", "Short", "Integer", "Long", "Float", "Double":
+			return typename + ".valueOf(" + val + ")"
+		case "BigDecimal", "Timestamp":
+			return "new " + typename + "(" + val + ")"
+		case "String":
 			return val
+		default: //UUID and enums
+			return typename + ".fromString(" + val + ")"
 		}
 	}
 
@@ -131,17 +137,29 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			} else {
 				ename, etype := entityNameType(hact)
 				if etype != "void" {
-					writer.WriteString("            " + etype + " " + ename + " = response.readEntity(" + etype + ".class);\n")
+					entity := "response.readEntity(" + etype + ".class)"
+					if strings.Contains(etype, "<") {
+						entity = "response.readEntity(new GenericType<" + etype + ">() {})"
+					}
+					writer.WriteString("            " + etype + " " + ename + " = " + entity + ";\n")
 				}
 				for _, out := range hact.Expected.Outputs {
 					if out.Header != "" {
-						tn, _, _ := gen.TypeName(nil, out.Type, true)
-						osrc := fromString(tn, "response.getHeaderString(\""+out.Header+"\")")
+						tn, _, _ := gen.TypeName(nil, out.Type, false)
+						hsrc := "response.getHeaderString(\"" + out.Header + "\")"
+						osrc := fromString(tn, hsrc)
+						if osrc != hsrc {
+							osrc = hsrc + " == null ? null : " + osrc
+						}
 						writer.WriteString("            " + tn + " " + out.Name + " = " + osrc + ";\n")
 					}
 				}
-				responseType := gen.ResponseType(hact.Name)
-				writer.WriteString("            return " + responseType + ".builder()\n")
+				responseType := gen.ResponseType(gen.ActionName(hact))
+				if gen.UseImmutable {
+					writer.WriteString("            return " + responseType + ".builder()\n")
+				} else {
+					writer.WriteString("            return new " + responseType + "()\n")
+				}
 				if etype != "void" {
 					writer.WriteString("                ." + ename + "(" + ename + ")\n")
 				}
@@ -150,11 +168,19 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 						writer.WriteString("                ." + out.Name + "(" + out.Name + ")\n")
 					}
 				}
-				writer.WriteString("                .build();\n")
+				if gen.UseImmutable {
+					writer.WriteString("                .build();\n")
+				} else {
+					writer.WriteString("                ;\n")
+				}
 			}
 			for _, exc := range hact.Exceptions {
 				writer.WriteString("        case " + fmt.Sprint(exc.Status) + ":\n")
-				writer.WriteString("            throw response.readEntity(" + exc.Type + ".class);\n")
+				entity := "response.readEntity(" + gen.Capitalize(exc.Type) + ".class)"
+				if gen.Config.GetBool("service-exception") {
+					entity = "new ServiceException().entity(" + entity + ")"
+				}
+				writer.WriteString("            throw " + entity + ";\n")
 			}
 			writer.WriteString("        default:\n")
 			writer.WriteString("            throw new RuntimeException(\"Unexpected service response status: \" + response.getStatus());\n")
@@ -186,12 +212,15 @@ public interface ClientConfig {
 
 const clientTemplate = `
 {{if .ModelPackage}}import {{.ModelPackage}}.*;{{end}}
+import java.math.BigDecimal;
 import java.time.Instant;
+import java.util.*;
 import javax.ws.rs.client.Client;
 import javax.ws.rs.client.ClientBuilder;
 import javax.ws.rs.client.Entity;
 import javax.ws.rs.client.WebTarget;
 import javax.ws.rs.client.Invocation;
+import javax.ws.rs.core.GenericType;
 import javax.ws.rs.core.MediaType;
 import javax.ws.rs.core.Response;
 import javax.ws.rs.WebApplicationException;
-- 
2.43.0


From 2e85048e3bf6ae2f5513032ee78c45607b5ea005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:34 +0000
Subject: [PATCH 083/173] fix: generated Java servers and clients did not
 exchange Strings as JSON

---
 java/java_client.go |  7 +++++--
 java/java_model.go  |  5 +++++
 java/java_server.go | 10 +++++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 10bb50e..9c45d9f 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -120,7 +120,8 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			body := ""
 			for _, in := range hact.Inputs {
 				if in.Query == "" && in.Header == "" && !in.Path {
-					body = gen.memberRef("req", in.Name)
+					tn, _, _ := gen.TypeName(nil, in.Type, false)
+					body = gen.jsonWrapper(tn, gen.memberRef("req", in.Name))
 				}
 			}
 			switch {
@@ -138,7 +139,9 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				ename, etype := entityNameType(hact)
 				if etype != "void" {
 					entity := "response.readEntity(" + etype + ".class)"
-					if strings.Contains(etype, "<") {
+					if etype == "String" {
+						entity = "Util.fromJson(" + entity + ", String.class)"
+					} else if strings.Contains(etype, "<") {
 						entity = "response.readEntity(new GenericType<" + etype + ">() {})"
 					}
 					writer.WriteString("            " + etype + " " + ename + " = " + entity + ";\n")
diff --git a/java/java_model.go b/java/java_model.go
index 3c33589..3a5276b 100644
--- a/java/java_model.go
+++ b/java/java_model.go
@@ -63,6 +63,11 @@ func (gen *Generator) CreateInterface() {
 		if etype == "String" {
 			gen.NeedUtil = true
 		}
+		for _, in := range hact.Inputs {
+			if tn, _, _ := gen.TypeName(nil, in.Type, false); tn == "String" && in.Query == "" && in.Header == "" && !in.Path {
+				gen.NeedUtil = true
+			}
+		}
 	}
 }
 
diff --git a/java/java_server.go b/java/java_server.go
index b822e14..60f117c 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -233,8 +233,12 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			reqname := reqType(name)
 			resname := gen.ResponseType(gen.ActionName(hact))
 			var params []string
+			body := ""
 			for _, in := range hact.Inputs {
 				params = append(params, in.Name)
+				if tn, _, _ := gen.TypeName(nil, in.Type, false); tn == "String" && in.Query == "" && in.Header == "" && !in.Path {
+					body = in.Name
+				}
 			}
 			ename, etype := entityNameType(hact)
 			var b bytes.Buffer
@@ -245,7 +249,11 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				writer.WriteString("        " + reqname + " req = new " + reqname + "()")
 			}
 			for _, p := range params {
-				writer.WriteString("." + p + "(" + p + ")")
+				if p == body {
+					writer.WriteString("." + p + "(Util.fromJson(" + p + ", String.class))")
+				} else {
+					writer.WriteString("." + p + "(" + p + ")")
+				}
 			}
 			if gen.UseImmutable {
 				writer.WriteString(".build()")
-- 
2.43.0


From a18882c182e0312a2e35c350b0cf6e5d633da9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:26 +0000
Subject: [PATCH 084/173] fix: Java generation crashed on a UnitValue whose
 unit type has a lower case name

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index f7e34ba..35d2309 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -645,7 +645,7 @@ func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string) {
 		v = "new BigDecimal(tmp[0])"
 	}
 	u := "<bad unit type, must be enum or string>"
-	ut := gen.Model.FindType(unitType)
+	ut := gen.Model.FindType(ts.Unit)
 	switch ut.Type {
 	case "String":
 		u = "tmp[1]"
-- 
2.43.0


From 68d79fe49b57a8c70ab2f890d033789d34220ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:04 +0000
Subject: [PATCH 085/173] fix: generated Java exceptions that are mutable lost
 their message in JSON

---
 java/export_java.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/export_java.go b/java/export_java.go
index 35d2309..5e603f4 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -343,6 +343,9 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 		} else {
 			for _, fd := range ts.Fields {
 				gen.EmitFluidSetter(className, ts, fd, indent)
+				if extends != "" && fd.Name == "message" {
+					gen.EmitGetter(className, ts, fd, indent) //instead of the inherited one
+				}
 			}
 		}
 		if gen.UseJsonPretty {
-- 
2.43.0


From f2610170adca181b3c386740e102f940248b50b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:16 +0000
Subject: [PATCH 086/173] fix: generated Java servers and clients did not
 compile for parameters named like their local variables

---
 java/java_client.go |  8 ++++----
 java/java_server.go | 38 +++++++++++++++++++-------------------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 9c45d9f..1e3d803 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -144,7 +144,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 					} else if strings.Contains(etype, "<") {
 						entity = "response.readEntity(new GenericType<" + etype + ">() {})"
 					}
-					writer.WriteString("            " + etype + " " + ename + " = " + entity + ";\n")
+					writer.WriteString("            " + etype + " _" + ename + " = " + entity + ";\n")
 				}
 				for _, out := range hact.Expected.Outputs {
 					if out.Header != "" {
@@ -154,7 +154,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 						if osrc != hsrc {
 							osrc = hsrc + " == null ? null : " + osrc
 						}
-						writer.WriteString("            " + tn + " " + out.Name + " = " + osrc + ";\n")
+						writer.WriteString("            " + tn + " _" + out.Name + " = " + osrc + ";\n")
 					}
 				}
 				responseType := gen.ResponseType(gen.ActionName(hact))
@@ -164,11 +164,11 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 					writer.WriteString("            return new " + responseType + "()\n")
 				}
 				if etype != "void" {
-					writer.WriteString("                ." + ename + "(" + ename + ")\n")
+					writer.WriteString("                ." + ename + "(_" + ename + ")\n")
 				}
 				for _, out := range hact.Expected.Outputs {
 					if out.Header != "" {
-						writer.WriteString("                ." + out.Name + "(" + out.Name + ")\n")
+						writer.WriteString("                ." + out.Name + "(_" + out.Name + ")\n")
 					}
 				}
 				if gen.UseImmutable {
diff --git a/java/java_server.go b/java/java_server.go
index 60f117c..aaf2d5d 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -244,9 +244,9 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			var b bytes.Buffer
 			writer := bufio.NewWriter(&b)
 			if gen.UseImmutable {
-				writer.WriteString("        " + reqname + " req = " + reqname + ".builder()")
+				writer.WriteString("        " + reqname + " _req = " + reqname + ".builder()")
 			} else {
-				writer.WriteString("        " + reqname + " req = new " + reqname + "()")
+				writer.WriteString("        " + reqname + " _req = new " + reqname + "()")
 			}
 			for _, p := range params {
 				if p == body {
@@ -261,15 +261,15 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			writer.WriteString(";\n")
 			writer.WriteString("        try {\n")
 			if len(hact.Expected.Outputs) > 0 {
-				writer.WriteString("            " + resname + " res = " + implName(iname) + "." + name + "(req);\n")
+				writer.WriteString("            " + resname + " _res = " + implName(iname) + "." + name + "(_req);\n")
 				wrappedResult := ""
 				if ename != "void" && ename != "" {
-					wrappedResult = gen.jsonWrapper(etype, gen.memberRef("res", ename))
+					wrappedResult = gen.jsonWrapper(etype, gen.memberRef("_res", ename))
 				}
 				ret := fmt.Sprintf("Response.status(%d)", +hact.Expected.Status)
 				for _, out := range hact.Expected.Outputs {
 					if out.Header != "" {
-						ret = ret + ".header(\"" + out.Header + "\", " + gen.memberRef("res", out.Name) + ")"
+						ret = ret + ".header(\"" + out.Header + "\", " + gen.memberRef("_res", out.Name) + ")"
 					}
 				}
 				if wrappedResult != "" {
@@ -277,14 +277,14 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				}
 				writer.WriteString("            return " + ret + ".build();\n")
 			} else {
-				writer.WriteString("            " + implName(iname) + "." + name + "(req);\n")
+				writer.WriteString("            " + implName(iname) + "." + name + "(_req);\n")
 				writer.WriteString(fmt.Sprintf("            return Response.status(%d).build();\n", hact.Expected.Status))
 			}
 
 			if gen.Config.GetBool("service-exception") {
-				writer.WriteString("        } catch (ServiceException se) {\n")
-				writer.WriteString("            Object entity = se.entity == null? se : se.entity;\n")
-				writer.WriteString("            int status = 500;\n")
+				writer.WriteString("        } catch (ServiceException _se) {\n")
+				writer.WriteString("            Object _entity = _se.entity == null? _se : _se.entity;\n")
+				writer.WriteString("            int _status = 500;\n")
 				first := true
 				any := false
 				anyNull := false
@@ -293,14 +293,14 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 					if tn != "ServiceException" {
 						any = true
 						if first {
-							writer.WriteString("            if (entity instanceof " + tn + ") {\n")
+							writer.WriteString("            if (_entity instanceof " + tn + ") {\n")
 							first = false
 						} else {
-							writer.WriteString("            } else if (entity instanceof " + tn + ") {\n")
+							writer.WriteString("            } else if (_entity instanceof " + tn + ") {\n")
 						}
-						writer.WriteString(fmt.Sprintf("                status = %d;\n", resp.Status))
+						writer.WriteString(fmt.Sprintf("                _status = %d;\n", resp.Status))
 						if resp.Status == 204 || resp.Status == 304 {
-							writer.WriteString("                entity = null;\n")
+							writer.WriteString("                _entity = null;\n")
 							anyNull = true
 						}
 					}
@@ -309,20 +309,20 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 					writer.WriteString("            }\n")
 				}
 				if anyNull {
-					writer.WriteString("            if (entity == null) {\n")
-					writer.WriteString("                throw new WebApplicationException(status);\n")
+					writer.WriteString("            if (_entity == null) {\n")
+					writer.WriteString("                throw new WebApplicationException(_status);\n")
 					writer.WriteString("            }\n")
 				}
-				writer.WriteString("            throw new WebApplicationException(Response.status(status).entity(entity).build());\n")
+				writer.WriteString("            throw new WebApplicationException(Response.status(_status).entity(_entity).build());\n")
 			} else {
 				for _, resp := range hact.Exceptions {
 					status := fmt.Sprint(resp.Status)
 					tn, _, _ := gen.TypeName(nil, resp.Type, true)
-					writer.WriteString("        } catch (" + tn + " e) {\n")
-					writer.WriteString("                throw new WebApplicationException(Response.status(" + status + ").entity(e).build());\n")
+					writer.WriteString("        } catch (" + tn + " _e) {\n")
+					writer.WriteString("                throw new WebApplicationException(Response.status(" + status + ").entity(_e).build());\n")
 				}
 			}
-			writer.WriteString("        } catch (Throwable th) {\n")
+			writer.WriteString("        } catch (Throwable _th) {\n")
 			writer.WriteString("            return Response.status(500).build();\n")
 			writer.WriteString("        }\n")
 			writer.Flush()
-- 
2.43.0


From 8b09549ddbb97c3e1543696295959a8f1206ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:14 +0000
Subject: [PATCH 087/173] fix: a struct or enum that ends the source without a
 newline was rejected

---
 parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.go b/parser.go
index 1559f89..1192fd7 100644
--- a/parser.go
+++ b/parser.go
@@ -66,6 +66,7 @@ type Parser struct {
 	lastToken      *scanner.Token
 	prevLastToken  *scanner.Token
 	ungottenToken  *scanner.Token
+	atEnd          bool
 	currentComment string
 	extensions     map[string]Extension
 }
@@ -106,6 +107,9 @@ func (p *Parser) Model() *Model {
 
 func (p *Parser) UngetToken() {
 	Debug("UngetToken() -> ", p.lastToken)
+	if p.atEnd { //there was no token to put back
+		return
+	}
 	p.ungottenToken = p.lastToken
 	p.lastToken = p.prevLastToken
 }
@@ -121,6 +125,7 @@ func (p *Parser) GetToken() *scanner.Token {
 	tok := p.scanner.Scan()
 	for {
 		if tok.Type == scanner.EOF {
+			p.atEnd = true
 			return nil //fixme
 		} else if tok.Type != scanner.BLOCK_COMMENT {
 			break
-- 
2.43.0


From 80cddf0432f302e1bad558a68c3218ad2fea5214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:40 +0000
Subject: [PATCH 088/173] fix: comments of fields, enum elements and expected
 results were lost, repeated or given to the next one

---
 parser.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/parser.go b/parser.go
index 1192fd7..8c0d59f 100644
--- a/parser.go
+++ b/parser.go
@@ -741,6 +741,7 @@ func (p *Parser) parseHttpExpectedSpec(op *HttpDef, comment string) error {
 	}
 	op.Expected = &HttpExpectedSpec{
 		Status:      estatus,
+		Comment:     comment,
 		Annotations: options.Annotations,
 	}
 	tok := p.GetToken()
@@ -1698,6 +1699,10 @@ func (p *Parser) parseEnumElementDef() (*EnumElementDef, error) {
 	if err != nil {
 		return nil, err
 	}
+	tok := p.GetToken()
+	if tok != nil && tok.Type != scanner.COMMA && tok.Type != scanner.SEMICOLON {
+		p.UngetToken()
+	}
 	comment = p.ParseTrailingComment(comment)
 	return &EnumElementDef{
 		Symbol:      sym,
@@ -1728,7 +1733,7 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 		if tok.Type == scanner.CLOSE_BRACE {
 			return nil, nil
 		} else if tok.Type == scanner.LINE_COMMENT {
-			comment = p.MergeComment("", tok.Text)
+			comment = p.MergeComment(comment, tok.Text)
 			tok = p.GetToken()
 			if tok == nil {
 				return nil, p.EndOfFileError()
@@ -1747,11 +1752,10 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 	if err != nil {
 		return nil, err
 	}
-	ts, foptions, fcomment, err := p.ParseTypeSpec(comment)
+	ts, foptions, comment, err := p.ParseTypeSpec(comment)
 	if err != nil {
 		return nil, err
 	}
-	comment = p.MergeComment(comment, fcomment)
 	field := &StructFieldDef{
 		Name:     fname,
 		Comment:  comment,
@@ -2053,13 +2057,7 @@ func (p *Parser) ParseTrailingComment(comment string) string {
 }
 
 func (p *Parser) MergeComment(comment1 string, comment2 string) string {
-	if comment1 == "" {
-		return strings.TrimSpace(comment2)
-	}
-	if comment2 == "" {
-		return strings.TrimSpace(comment1)
-	}
-	return strings.TrimSpace(comment1) + " " + strings.TrimSpace(comment2)
+	return strings.TrimSpace(strings.TrimSpace(comment1) + " " + strings.TrimSpace(comment2))
 }
 
 func (p *Parser) Validate() (*Model, error) {
-- 
2.43.0


From f79b22fd061e0b378b7b90d180a8b7b953952dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:05 +0000
Subject: [PATCH 089/173] fix: fields and parameters on the line of a closing
 brace swallowed it, and what followed them was ignored

---
 parser.go | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index 8c0d59f..c162069 100644
--- a/parser.go
+++ b/parser.go
@@ -603,6 +603,9 @@ func (p *Parser) parseHttpDirective(name, comment string) error {
 			}
 		}
 		op.Comment, err = p.EndOfStatement(op.Comment)
+		if err != nil {
+			return err
+		}
 		ensureActionName(op)
 		ensureRequiredParams(op)
 		p.schema.Http = append(p.schema.Http, op)
@@ -697,6 +700,9 @@ func (p *Parser) parseHttpSpec(op *HttpDef, comment string, top bool) error {
 		return err
 	}
 	comment, err = p.EndOfStatement(comment)
+	if err != nil {
+		return err
+	}
 	spec := &HttpParamSpec{
 		StructFieldDef: StructFieldDef{
 			Name:        ename,
@@ -1068,8 +1074,7 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 					}
 					fields = append(fields, field)
 				}
-				comment, err = p.EndOfStatement(comment)
-				p.UngetToken() //the closing brace
+				comment = p.endOfBlock(comment)
 				return typeName, nil, fields, nil, options, comment, nil
 			case "Enum":
 				var elements []*EnumElementDef
@@ -1090,8 +1095,7 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 					}
 					elements = append(elements, element)
 				}
-				comment, err = p.EndOfStatement(comment)
-				p.UngetToken() //the closing brace
+				comment = p.endOfBlock(comment)
 				return typeName, nil, nil, elements, options, comment, nil
 			}
 			return typeName, nil, nil, nil, options, comment, p.SyntaxError()
@@ -1776,6 +1780,9 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 		}
 	}
 	field.Comment, err = p.EndOfStatement(field.Comment)
+	if err != nil {
+		return nil, err
+	}
 	return field, nil
 }
 
@@ -2012,23 +2019,43 @@ func (p *Parser) unitValueParams(params []string) (string, string, error) {
 }
 
 func (p *Parser) EndOfStatement(comment string) (string, error) {
+	terminated := false
 	for {
 		tok := p.GetToken()
 		if tok == nil {
 			return comment, nil
 		}
 		if tok.Type == scanner.SEMICOLON {
-			//ignore it
+			terminated = true
 		} else if tok.Type == scanner.LINE_COMMENT {
 			comment = p.MergeComment(comment, tok.Text)
 		} else if tok.Type == scanner.NEWLINE {
 			return comment, nil
+		} else if terminated || tok.Type == scanner.CLOSE_BRACE {
+			p.UngetToken()
+			return comment, nil
 		} else {
 			return comment, p.SyntaxError()
 		}
 	}
 }
 
+// what follows the closing brace of a block: more options, or the end of the statement, can still come
+func (p *Parser) endOfBlock(comment string) string {
+	for {
+		tok := p.GetToken()
+		if tok == nil {
+			return comment
+		}
+		if tok.Type == scanner.LINE_COMMENT {
+			comment = p.MergeComment(comment, tok.Text)
+		} else if tok.Type != scanner.SEMICOLON {
+			p.UngetToken()
+			return comment
+		}
+	}
+}
+
 func (p *Parser) parseLeadingComment(comment string) string {
 	for {
 		tok := p.GetToken()
-- 
2.43.0


From 28d1d61f32b6331d7feef1824671d44a9b386984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:45 +0000
Subject: [PATCH 090/173] fix: unions lost the comments, annotations and item
 types of their variants, and types the annotations of one side of their body

---
 parser.go | 64 +++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/parser.go b/parser.go
index c162069..a574207 100644
--- a/parser.go
+++ b/parser.go
@@ -946,10 +946,8 @@ func (p *Parser) parseTypeDirective(comment string) error {
 		err = p.parseMapDef(td, params)
 	case "Struct":
 		err = p.parseStructDef(td, fields)
-		td.Annotations = options.Annotations
 	case "Enum":
-		td.Elements = elements
-		td.Annotations = options.Annotations
+		err = p.parseEnumDef(td, elements)
 	case "Union":
 		err = p.parseUnionDef(td, params, fields)
 	default:
@@ -958,6 +956,9 @@ func (p *Parser) parseTypeDirective(comment string) error {
 	if err != nil {
 		return err
 	}
+	for k, v := range options.Annotations {
+		td.Annotations = p.addAnnotation(td.Annotations, k, v)
+	}
 	p.schema.Types = append(p.schema.Types, td)
 	return nil
 }
@@ -970,6 +971,7 @@ func (p *Parser) ParseTypeSpec(comment string) (*TypeSpec, *Options, string, err
 	comment = p.MergeComment(comment, tsComment) //?
 	var tsKeys, tsItems string
 	var tsUnit, tsValue string
+	var tsVariants []*UnionVariantDef
 	switch tsType {
 	case "Array", "List":
 		tsItems, err = p.arrayParams(tsParams)
@@ -977,9 +979,11 @@ func (p *Parser) ParseTypeSpec(comment string) (*TypeSpec, *Options, string, err
 		tsKeys, tsItems, err = p.mapParams(tsParams)
 	case "UnitValue":
 		tsValue, tsUnit, err = p.unitValueParams(tsParams)
+	case "Union":
+		tsVariants, err = p.unionVariants(tsParams, tsFields)
+		tsFields = nil
 	default:
 		if len(tsParams) != 0 {
-			//unions!?
 			err = p.SyntaxError()
 		}
 	}
@@ -994,6 +998,7 @@ func (p *Parser) ParseTypeSpec(comment string) (*TypeSpec, *Options, string, err
 		Unit:     tsUnit,
 		Fields:   tsFields,
 		Elements: tsElements,
+		Variants: tsVariants,
 	}
 	return ts, options, comment, nil
 }
@@ -1209,35 +1214,48 @@ func (p *Parser) parseStructDef(td *TypeDef, fields []*StructFieldDef) error {
 }
 
 func (p *Parser) parseEnumDef(td *TypeDef, elements []*EnumElementDef) error {
-	td.Elements = elements
-	return nil
+	err := p.parseTypeOptions(td)
+	if err == nil {
+		td.Elements = elements
+	}
+	return err
 }
 
 func (p *Parser) parseUnionDef(td *TypeDef, params []string, fields []*StructFieldDef) error {
 	err := p.parseTypeOptions(td)
 	if err == nil {
-		if params != nil {
-			for _, v := range params {
-				vd := &UnionVariantDef{}
-				vd.Name = v
-				vd.Type = v
-				td.Variants = append(td.Variants, vd)
-			}
-		} else if fields != nil {
-			for _, v := range fields {
-				vd := &UnionVariantDef{}
-				vd.Name = v.Name
-				vd.Type = v.Type
-				td.Variants = append(td.Variants, vd)
-			}
-		} else {
-			return p.SyntaxError()
+		td.Variants, err = p.unionVariants(params, fields)
+		if err == nil {
+			td.Comment, err = p.EndOfStatement(td.Comment)
 		}
-		td.Comment, err = p.EndOfStatement(td.Comment)
 	}
 	return err
 }
 
+func (p *Parser) unionVariants(params []string, fields []*StructFieldDef) ([]*UnionVariantDef, error) {
+	var variants []*UnionVariantDef
+	for _, v := range params {
+		variants = append(variants, &UnionVariantDef{
+			Name: v,
+			TypeSpec: TypeSpec{
+				Type: v,
+			},
+		})
+	}
+	for _, f := range fields {
+		variants = append(variants, &UnionVariantDef{
+			Name:        f.Name,
+			Comment:     f.Comment,
+			Annotations: f.Annotations,
+			TypeSpec:    f.TypeSpec,
+		})
+	}
+	if variants == nil {
+		return nil, p.SyntaxError()
+	}
+	return variants, nil
+}
+
 func (p *Parser) Error(msg string) error {
 	Debug("*** error, last token:", p.lastToken)
 	return fmt.Errorf("*** %s\n", scanner.FormattedAnnotation(p.path, p.Source(), "", msg, p.lastToken, scanner.RED, 5))
-- 
2.43.0


From e04689abedbd2b35f192d5237fb7724065681268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:24 +0000
Subject: [PATCH 091/173] fix: http parameters lost or were given the wrong
 'required', and unnamed actions with queries had no name

---
 parser.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index a574207..90f132e 100644
--- a/parser.go
+++ b/parser.go
@@ -606,7 +606,10 @@ func (p *Parser) parseHttpDirective(name, comment string) error {
 		if err != nil {
 			return err
 		}
-		ensureActionName(op)
+		err = ensureActionName(op)
+		if err != nil {
+			return p.Error(err.Error())
+		}
 		ensureRequiredParams(op)
 		p.schema.Http = append(p.schema.Http, op)
 	} else {
@@ -627,7 +630,7 @@ func ensureResourceName(hact *HttpDef) error {
 
 func ensureRequiredParams(hact *HttpDef) {
 	for _, in := range hact.Inputs {
-		if in.Query == "" && in.Header != "" { //body or pathparam
+		if in.Query == "" && in.Header == "" { //body or pathparam
 			in.Required = true
 		}
 	}
@@ -645,9 +648,13 @@ func ensureRequiredParams(hact *HttpDef) {
 }
 
 func resourceName(hact *HttpDef) string {
-	parts := strings.Split(hact.Path, "/")
+	path := hact.Path
+	if n := strings.Index(path, "?"); n >= 0 {
+		path = path[:n]
+	}
+	parts := strings.Split(path, "/")
 	for i := len(parts) - 1; i >= 0; i-- {
-		if strings.Index(parts[i], "{") < 0 {
+		if parts[i] != "" && strings.Index(parts[i], "{") < 0 {
 			return parts[i]
 		}
 	}
@@ -708,6 +715,7 @@ func (p *Parser) parseHttpSpec(op *HttpDef, comment string, top bool) error {
 			Name:        ename,
 			Annotations: options.Annotations,
 			Comment:     comment,
+			Required:    options.Required,
 			TypeSpec:    *ts,
 		},
 	}
-- 
2.43.0


From d29a795948427eb28ea76060206d1865e3daf34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:05 +0000
Subject: [PATCH 092/173] fix: incomplete or commented operation definitions
 crashed or were rejected, and malformed ones accepted

---
 parser.go | 182 ++++++++++++++++++++++++++----------------------------
 1 file changed, 89 insertions(+), 93 deletions(-)

diff --git a/parser.go b/parser.go
index 90f132e..2f4e4c4 100644
--- a/parser.go
+++ b/parser.go
@@ -368,7 +368,9 @@ func (p *Parser) parseOperationDirective(comment string) error {
 
 	//parse operation options here
 	options, err := p.ParseOptions("operation", []string{"http"})
-
+	if err != nil {
+		return err
+	}
 	err = p.expect(scanner.OPEN_BRACE)
 	if err != nil {
 		return err
@@ -378,9 +380,9 @@ func (p *Parser) parseOperationDirective(comment string) error {
 	var exceptions []string
 
 	for {
-		tok := p.GetToken()
-		if tok == nil {
-			return p.EndOfFileError()
+		tok, _, err := p.nextInBlock()
+		if err != nil {
+			return err
 		}
 		if tok.Type == scanner.CLOSE_BRACE {
 			break
@@ -397,6 +399,8 @@ func (p *Parser) parseOperationDirective(comment string) error {
 			if err != nil {
 				return err
 			}
+		} else {
+			return p.SyntaxError()
 		}
 	}
 	//comment, err = p.EndOfStatement(comment)
@@ -412,120 +416,112 @@ func (p *Parser) parseOperationDirective(comment string) error {
 	return nil
 }
 
+// nextInBlock gets the next token of a block that is not a newline, along with the comments before it
+func (p *Parser) nextInBlock() (*scanner.Token, string, error) {
+	comment := ""
+	for {
+		tok := p.GetToken()
+		if tok == nil {
+			return nil, "", p.EndOfFileError()
+		}
+		switch tok.Type {
+		case scanner.NEWLINE, scanner.SEMICOLON, scanner.COMMA:
+			//ignore
+		case scanner.LINE_COMMENT:
+			comment = p.MergeComment(comment, tok.Text)
+		default:
+			return tok, comment, nil
+		}
+	}
+}
+
 func (p *Parser) parseOperationInputs() ([]*OperationInput, error) {
 	var inputs []*OperationInput
-	tok := p.GetToken()
-	if tok.Type != scanner.OPEN_BRACE {
-		return nil, p.SyntaxError()
+	err := p.expect(scanner.OPEN_BRACE)
+	if err != nil {
+		return nil, err
 	}
-	tok = p.GetToken()
-	for tok != nil {
+	for {
+		tok, comment, err := p.nextInBlock()
+		if err != nil {
+			return nil, err
+		}
 		if tok.Type == scanner.CLOSE_BRACE {
 			return inputs, nil
-		} else if tok.Type == scanner.NEWLINE {
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			continue
-		} else {
-			in := &OperationInput{}
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			in.Name = tok.Text
-			tok = p.GetToken()
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			in.Type = tok.Text
-			tok = p.GetToken()
-			if tok.Type != scanner.OPEN_PAREN {
-				p.UngetToken()
-			} else {
-				for {
-					tok = p.GetToken()
-					if tok.Type == scanner.CLOSE_PAREN {
-						break
-					} else if tok.Type == scanner.SYMBOL {
-						switch tok.Text {
-						case "required":
-							in.Required = true
-						default:
-							return nil, p.SyntaxError()
-						}
-					}
-				}
-			}
-			inputs = append(inputs, in)
 		}
-		tok = p.GetToken()
+		in := &OperationInput{}
+		in.Name, err = p.assertIdentifier(tok)
+		if err != nil {
+			return nil, err
+		}
+		in.Type, err = p.ExpectIdentifier()
+		if err != nil {
+			return nil, err
+		}
+		options, err := p.ParseOptions("operation input", []string{"required"})
+		if err != nil {
+			return nil, err
+		}
+		in.Required = options.Required
+		in.Annotations = options.Annotations
+		in.Comment = p.ParseTrailingComment(comment)
+		inputs = append(inputs, in)
 	}
-	return nil, nil
 }
 
 func (p *Parser) parseOperationOutputs() ([]*OperationOutput, error) {
 	var outputs []*OperationOutput
-	tok := p.GetToken()
-	if tok.Type != scanner.OPEN_BRACE {
-		return nil, p.SyntaxError()
+	err := p.expect(scanner.OPEN_BRACE)
+	if err != nil {
+		return nil, err
 	}
-	tok = p.GetToken()
-	for tok != nil {
+	for {
+		tok, comment, err := p.nextInBlock()
+		if err != nil {
+			return nil, err
+		}
 		if tok.Type == scanner.CLOSE_BRACE {
 			return outputs, nil
-		} else if tok.Type == scanner.NEWLINE {
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			continue
-		} else {
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			outName := tok.Text
-			tok = p.GetToken()
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			outType := tok.Text
-			//options? comment?
-			out := &OperationOutput{}
-			out.Name = outName
-			out.Type = outType
-			outputs = append(outputs, out)
 		}
-		tok = p.GetToken()
+		out := &OperationOutput{}
+		out.Name, err = p.assertIdentifier(tok)
+		if err != nil {
+			return nil, err
+		}
+		out.Type, err = p.ExpectIdentifier()
+		if err != nil {
+			return nil, err
+		}
+		options, err := p.ParseOptions("operation output", []string{})
+		if err != nil {
+			return nil, err
+		}
+		out.Annotations = options.Annotations
+		out.Comment = p.ParseTrailingComment(comment)
+		outputs = append(outputs, out)
 	}
-	return nil, nil
 }
 
 func (p *Parser) parseOperationExceptions() ([]string, error) {
 	var exceptions []string
-	tok := p.GetToken()
-	if tok.Type != scanner.OPEN_BRACE {
-		return nil, p.SyntaxError()
+	err := p.expect(scanner.OPEN_BRACE)
+	if err != nil {
+		return nil, err
 	}
-	tok = p.GetToken()
-	for tok != nil {
+	for {
+		tok, _, err := p.nextInBlock()
+		if err != nil {
+			return nil, err
+		}
 		if tok.Type == scanner.CLOSE_BRACE {
 			return exceptions, nil
-		} else if tok.Type == scanner.NEWLINE {
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			continue
-		} else {
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			exceptions = append(exceptions, tok.Text)
 		}
-		tok = p.GetToken()
+		etype, err := p.assertIdentifier(tok)
+		if err != nil {
+			return nil, err
+		}
+		exceptions = append(exceptions, etype)
 	}
-	return nil, nil
 }
 
 func (p *Parser) parseActionDirective(comment string) error {
-- 
2.43.0


From 4502eff22cc5e2bff644d283b0e0a7fef54472b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:07 +0000
Subject: [PATCH 093/173] fix: empty arrays became null, and anything was
 accepted between the members of an object

---
 parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 2f4e4c4..b724251 100644
--- a/parser.go
+++ b/parser.go
@@ -1901,7 +1901,7 @@ func (p *Parser) parseLiteralNumber(tok *scanner.Token) (interface{}, error) {
 }
 
 func (p *Parser) parseLiteralArray() (interface{}, error) {
-	var ary []interface{}
+	ary := make([]interface{}, 0)
 	for {
 		tok := p.GetToken()
 		if tok == nil {
@@ -1949,8 +1949,8 @@ func (p *Parser) parseLiteralObject() (interface{}, error) {
 			obj[*pkey] = val
 		} else if tok.Type == scanner.SYMBOL {
 			return nil, p.Error("Expected String key for JSON object, found symbol '" + tok.Text + "'")
-		} else {
-			//fmt.Println("ignoring this token:", tok)
+		} else if tok.Type != scanner.COMMA && tok.Type != scanner.NEWLINE && tok.Type != scanner.LINE_COMMENT {
+			return nil, p.SyntaxError()
 		}
 	}
 }
-- 
2.43.0


From 29046f6eea18ddc66f29098ae247a1d9202773e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:08 +0000
Subject: [PATCH 094/173] fix: unknown directives were ignored

---
 parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index b724251..3cfdcb9 100644
--- a/parser.go
+++ b/parser.go
@@ -211,11 +211,11 @@ func (p *Parser) ParseNoValidate(extensions []Extension) error {
 					p.schema.Annotations, comment, err = p.parseExtendedOptionTopLevel(p.schema.Annotations, tok.Text)
 					p.schema.Comment = p.MergeComment(p.schema.Comment, comment)
 				} else {
-					if p.extensions != nil {
-						if handler, ok := p.extensions[tok.Text]; ok {
-							p.currentComment = comment
-							err = handler.Parse(p)
-						}
+					if handler, ok := p.extensions[tok.Text]; ok {
+						p.currentComment = comment
+						err = handler.Parse(p)
+					} else {
+						err = p.expectedDirectiveError()
 					}
 				}
 			}
-- 
2.43.0


From d4b8f7996ae71a7704052354f473526ceaa9745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:57 +0000
Subject: [PATCH 095/173] fix: undefined types of unions, parameters,
 operations and inline types, wrong defaults and duplicate names were accepted

---
 parser.go | 147 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 106 insertions(+), 41 deletions(-)

diff --git a/parser.go b/parser.go
index 3cfdcb9..3a5ccb7 100644
--- a/parser.go
+++ b/parser.go
@@ -2125,6 +2125,8 @@ func (p *Parser) Validate() (*Model, error) {
 			err = p.validateStringDef(td)
 		case "UUID":
 			err = p.validateReference(td)
+		case "Enum", "Union":
+			err = p.validateTypeSpec(td.Name, &td.TypeSpec)
 		}
 		if err != nil {
 			return nil, err
@@ -2322,10 +2324,11 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 	}
 	needsBody := hact.Method == "POST" || hact.Method == "PUT" || hact.Method == "PATCH"
 	bodyParam := ""
+	names := make(map[string]bool, 0)
 	for _, in := range hact.Inputs {
-		t := p.model.FindType(in.Type)
-		if t == nil {
-			return fmt.Errorf("Action '%s' input type '%s' is not defined", hact.Name, in.Type)
+		err = p.validateHttpParam(hact, in, names)
+		if err != nil {
+			return err
 		}
 		//paramType, paramName := p.parameterSource(hact.Path, in.Name)
 		if !in.Path && in.Query == "" && in.Header == "" {
@@ -2339,16 +2342,22 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 			}
 		}
 	}
-	needsBody = false
+	for _, exc := range hact.Exceptions {
+		t := p.model.FindType(exc.Type)
+		if t == nil {
+			return fmt.Errorf("Action '%s' exception type '%s' is not defined", hact.Name, exc.Type)
+		}
+	}
 	if hact.Expected == nil {
 		return nil
 	}
 	needsBody = hact.Expected.Status != 204 && hact.Expected.Status != 304
 	bodyParam = ""
+	names = make(map[string]bool, 0)
 	for _, out := range hact.Expected.Outputs {
-		t := p.model.FindType(out.Type)
-		if t == nil {
-			return fmt.Errorf("Action '%s' expected type '%s' is not defined", hact.Name, out.Type)
+		err = p.validateHttpParam(hact, out, names)
+		if err != nil {
+			return err
 		}
 		if out.Header == "" {
 			if needsBody {
@@ -2361,11 +2370,21 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 			}
 		}
 	}
-	for _, exc := range hact.Exceptions {
-		t := p.model.FindType(exc.Type)
-		if t == nil {
-			return fmt.Errorf("Action '%s' exception type '%s' is not defined", hact.Name, exc.Type)
-		}
+	return nil
+}
+
+func (p *Parser) validateHttpParam(hact *HttpDef, param *HttpParamSpec, names map[string]bool) error {
+	if names[param.Name] {
+		return fmt.Errorf("Action '%s' has more than one parameter '%s'", hact.Name, param.Name)
+	}
+	names[param.Name] = true
+	context := fmt.Sprintf("parameter '%s' of action '%s'", param.Name, hact.Name)
+	err := p.validateTypeSpec(context, &param.TypeSpec)
+	if err != nil {
+		return err
+	}
+	if param.Default != nil {
+		return p.model.ValidateAgainstTypeSpec("default of "+context, &param.TypeSpec, param.Default)
 	}
 	return nil
 }
@@ -2395,7 +2414,31 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 */
 
 func (p *Parser) validateOperation(action *OperationDef) error {
-	//fix me
+	names := make(map[string]bool, 0)
+	for _, in := range action.Inputs {
+		if names[in.Name] {
+			return fmt.Errorf("Duplicate input '%s' in operation '%s'", in.Name, action.Name)
+		}
+		names[in.Name] = true
+		if p.model.FindType(in.Type) == nil {
+			return fmt.Errorf("Operation '%s' input type '%s' is not defined", action.Name, in.Type)
+		}
+	}
+	names = make(map[string]bool, 0)
+	for _, out := range action.Outputs {
+		if names[out.Name] {
+			return fmt.Errorf("Duplicate output '%s' in operation '%s'", out.Name, action.Name)
+		}
+		names[out.Name] = true
+		if p.model.FindType(out.Type) == nil {
+			return fmt.Errorf("Operation '%s' output type '%s' is not defined", action.Name, out.Type)
+		}
+	}
+	for _, etype := range action.Exceptions {
+		if p.model.FindType(etype) == nil {
+			return fmt.Errorf("Operation '%s' exception type '%s' is not defined", action.Name, etype)
+		}
+	}
 	return nil
 }
 
@@ -2436,35 +2479,60 @@ func (p *Parser) validateUnitValue(td *TypeDef) error {
 	return nil
 }
 
+// validateTypeSpec checks the types that a type given in place refers to
+func (p *Parser) validateTypeSpec(context string, ts *TypeSpec) error {
+	if p.model.FindType(ts.Type) == nil {
+		return fmt.Errorf("Undefined type '%s' in %s", ts.Type, context)
+	}
+	td := &TypeDef{Name: context, TypeSpec: *ts}
+	switch ts.Type {
+	case "Array":
+		return p.validateArray(td)
+	case "Map":
+		return p.validateMap(td)
+	case "UnitValue":
+		return p.validateUnitValue(td)
+	case "String":
+		return p.validateStringDef(td)
+	case "UUID":
+		return p.validateReference(td)
+	case "Struct":
+		return p.validateStruct(td)
+	case "Enum":
+		symbols := make(map[string]bool, 0)
+		for _, el := range ts.Elements {
+			if symbols[el.Symbol] {
+				return fmt.Errorf("Duplicate element '%s' in Enum %s", el.Symbol, context)
+			}
+			symbols[el.Symbol] = true
+		}
+	case "Union":
+		names := make(map[string]bool, 0)
+		for _, v := range ts.Variants {
+			if names[v.Name] {
+				return fmt.Errorf("Duplicate variant '%s' in Union %s", v.Name, context)
+			}
+			names[v.Name] = true
+			err := p.validateTypeSpec(fmt.Sprintf("union variant '%s.%s'", context, v.Name), &v.TypeSpec)
+			if err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 func (p *Parser) validateStruct(td *TypeDef) error {
 	model := p.model
+	names := make(map[string]bool, 0)
 	for _, field := range td.Fields {
-		ftd := model.FindType(field.Type)
-		if ftd == nil {
-			return fmt.Errorf("Undefined type '%s' in struct field '%s.%s'", field.Type, td.Name, field.Name)
+		if names[field.Name] {
+			return fmt.Errorf("Duplicate field '%s' in Struct %s", field.Name, td.Name)
 		}
-		switch field.Type {
-		case "Array":
-			if field.Items != "" && field.Items != "Any" {
-				fitd := model.FindType(field.Items)
-				if fitd == nil {
-					return fmt.Errorf("Undefined array item type '%s' in struct field '%s.%s'", field.Items, td.Name, field.Name)
-				}
-			}
-		case "Map":
-			if field.Keys != "" && field.Keys != "Any" {
-				fitd := model.FindType(field.Keys)
-				if fitd == nil {
-					return fmt.Errorf("Undefined map key type '%s' in struct field '%s.%s'", field.Keys, td.Name, field.Name)
-				}
-				//TODO: ensure the key type is stringable.
-			}
-			if field.Items != "" && field.Items != "Any" {
-				fitd := model.FindType(field.Items)
-				if fitd == nil {
-					return fmt.Errorf("Undefined map value '%s' in struct field '%s.%s'", field.Items, td.Name, field.Name)
-				}
-			}
+		names[field.Name] = true
+		err := p.validateTypeSpec(fmt.Sprintf("struct field '%s.%s'", td.Name, field.Name), &field.TypeSpec)
+		if err != nil {
+			return err
 		}
 		if field.Default != nil {
 			if field.Required {
@@ -2496,9 +2564,6 @@ func (p *Parser) validateArray(td *TypeDef) error {
 
 func (p *Parser) validateMap(td *TypeDef) error {
 	model := p.model
-	if td.Items == "Any" {
-		return nil
-	}
 	itd := model.FindType(td.Items)
 	if itd == nil {
 		return fmt.Errorf("Undefined type '%s' for Map items '%s'", td.Items, td.Name)
-- 
2.43.0


From 335795c8412b2c3e8f18578688209ffbcf9da269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:28 +0000
Subject: [PATCH 096/173] fix: comments at the end of a directive's line were
 given to the next one

---
 parser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 3a5ccb7..4200963 100644
--- a/parser.go
+++ b/parser.go
@@ -273,6 +273,7 @@ func (p *Parser) parseNamespaceDirective(comment string) error {
 		ns = ns + txt
 	}
 	p.schema.Namespace = ns
+	p.schema.Comment = p.endOfBlock(p.schema.Comment)
 	return err
 }
 
@@ -281,6 +282,7 @@ func (p *Parser) parseNameDirective(comment string) error {
 	txt, err := p.expectText()
 	if err == nil {
 		p.schema.Name = txt
+		p.schema.Comment = p.endOfBlock(p.schema.Comment)
 	}
 	return err
 }
@@ -294,6 +296,7 @@ func (p *Parser) parseVersionDirective(comment string) error {
 	switch tok.Type {
 	case scanner.NUMBER, scanner.SYMBOL, scanner.STRING:
 		p.schema.Version = tok.Text
+		p.schema.Comment = p.endOfBlock(p.schema.Comment)
 		return nil
 	default:
 		return p.Error("Bad version value: " + tok.Text)
@@ -307,6 +310,8 @@ func (p *Parser) parseBaseDirective(comment string) error {
 		p.schema.Base = base
 		if base != "" && !strings.HasPrefix(base, "/") {
 			err = p.Error("Bad base path value: " + base)
+		} else {
+			p.schema.Comment = p.endOfBlock(p.schema.Comment)
 		}
 	}
 	return err
@@ -403,7 +408,7 @@ func (p *Parser) parseOperationDirective(comment string) error {
 			return p.SyntaxError()
 		}
 	}
-	//comment, err = p.EndOfStatement(comment)
+	comment = p.endOfBlock(comment)
 	op := &OperationDef{
 		Name:        name,
 		Inputs:      inputs,
@@ -900,7 +905,7 @@ func (p *Parser) parseExampleDirective(comment string) error {
 		ex := &ExampleDef{
 			Target:  target,
 			Example: val,
-			Comment: comment,
+			Comment: p.endOfBlock(comment),
 		}
 		if options.Name != "" {
 			ex.Name = options.Name
@@ -2062,7 +2067,7 @@ func (p *Parser) EndOfStatement(comment string) (string, error) {
 	}
 }
 
-// what follows the closing brace of a block: more options, or the end of the statement, can still come
+// the comments that follow a statement on its last line, leaving the end of the line (or more options) to come
 func (p *Parser) endOfBlock(comment string) string {
 	for {
 		tok := p.GetToken()
-- 
2.43.0


From b80e7b0adc1172a4da69e385f54a2870a173f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:22 +0000
Subject: [PATCH 097/173] fix: an example for the response of an action without
 expectation crashed the parser, and item types of parameters were not checked
 in examples

---
 parser.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index 4200963..8b42b1c 100644
--- a/parser.go
+++ b/parser.go
@@ -2238,11 +2238,10 @@ func (p *Parser) validateExampleAgainstHttpRequest(hact *HttpDef, ex *ExampleDef
 	for k, v := range m {
 		for _, in := range hact.Inputs {
 			if in.Name == k {
-				td := p.model.FindType(in.Type)
-				if td == nil {
+				if p.model.FindType(in.Type) == nil {
 					return fmt.Errorf("Type not found in example: %s", in.Type)
 				}
-				err := p.model.ValidateAgainstTypeSpec("example for "+ex.Target+"."+k, &td.TypeSpec, v)
+				err := p.model.ValidateAgainstTypeSpec("example for "+ex.Target+"."+k, &in.TypeSpec, v)
 				if err != nil {
 					return err
 				}
@@ -2266,14 +2265,16 @@ func (p *Parser) validateExampleAgainstHttpResponse(hact *HttpDef, ex *ExampleDe
 	if !ok {
 		return fmt.Errorf("Example for an HTTP response must be a JSON object")
 	}
+	if hact.Expected == nil {
+		return fmt.Errorf("Example for the response of action '%s', which expects none", hact.Name)
+	}
 	for k, v := range m {
 		for _, out := range hact.Expected.Outputs {
 			if out.Name == k {
-				td := p.model.FindType(out.Type)
-				if td == nil {
+				if p.model.FindType(out.Type) == nil {
 					return fmt.Errorf("Type not found in HTTP response example: %s", out.Type)
 				}
-				err := p.model.ValidateAgainstTypeSpec("HTTP response example for "+ex.Target+"."+k, &td.TypeSpec, v)
+				err := p.model.ValidateAgainstTypeSpec("HTTP response example for "+ex.Target+"."+k, &out.TypeSpec, v)
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From d99593a0df59c04816eed5024da0f6fb9ee0cace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:42 +0000
Subject: [PATCH 098/173] fix: http parameters could not have the constraints
 that fields can have

---
 parser.go | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/parser.go b/parser.go
index 8b42b1c..99a9757 100644
--- a/parser.go
+++ b/parser.go
@@ -699,29 +699,26 @@ func (p *Parser) parseHttpSpec(op *HttpDef, comment string, top bool) error {
 	if err != nil {
 		return err
 	}
-	ts, _, comment, err := p.ParseTypeSpec(comment)
+	ts, toptions, comment, err := p.ParseTypeSpec(comment)
 	if err != nil {
 		return err
 	}
-	options, err := p.ParseOptions("HttpParam", []string{"header", "default", "required"})
-	if err != nil {
-		return err
+	spec := &HttpParamSpec{
+		StructFieldDef: StructFieldDef{
+			Name:     ename,
+			TypeSpec: *ts,
+		},
 	}
-	comment, err = p.EndOfStatement(comment)
+	options, err := p.parseFieldOptions(&spec.StructFieldDef, "header")
 	if err != nil {
 		return err
 	}
-	spec := &HttpParamSpec{
-		StructFieldDef: StructFieldDef{
-			Name:        ename,
-			Annotations: options.Annotations,
-			Comment:     comment,
-			Required:    options.Required,
-			TypeSpec:    *ts,
-		},
+	for k, v := range toptions.Annotations {
+		spec.Annotations = p.addAnnotation(spec.Annotations, k, v)
 	}
-	if options.Default != "" {
-		spec.Default = options.Default
+	spec.Comment, err = p.EndOfStatement(comment)
+	if err != nil {
+		return err
 	}
 
 	paramType, paramName := p.parameterSource(pathTemplate, ename, options)
@@ -1814,6 +1811,12 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 }
 
 func (p *Parser) parseStructFieldOptions(field *StructFieldDef) error {
+	_, err := p.parseFieldOptions(field)
+	return err
+}
+
+// parse the options that apply to any field or parameter, given its type, and the additional ones
+func (p *Parser) parseFieldOptions(field *StructFieldDef, additional ...string) (*Options, error) {
 	var acceptable []string
 	switch field.Type {
 	case "String":
@@ -1827,6 +1830,7 @@ func (p *Parser) parseStructFieldOptions(field *StructFieldDef) error {
 	}
 	acceptable = append(acceptable, "required")
 	acceptable = append(acceptable, "default")
+	acceptable = append(acceptable, additional...)
 	options, err := p.ParseOptions(field.Type, acceptable)
 	if err == nil {
 		field.Required = options.Required
@@ -1840,7 +1844,7 @@ func (p *Parser) parseStructFieldOptions(field *StructFieldDef) error {
 		field.Annotations = options.Annotations
 		field.Reference = options.Reference
 	}
-	return err
+	return options, err
 }
 
 func (p *Parser) parseEqualsLiteral() (interface{}, error) {
-- 
2.43.0


From 873bd1ebcd10790c1738edbe9328b29c631d0428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:12 +0000
Subject: [PATCH 099/173] fix: a List without item type was not an Array, and
 annotations of examples were lost

---
 parser.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index 99a9757..db90fde 100644
--- a/parser.go
+++ b/parser.go
@@ -900,9 +900,10 @@ func (p *Parser) parseExampleDirective(comment string) error {
 	val, err := p.parseLiteralValue()
 	if err == nil {
 		ex := &ExampleDef{
-			Target:  target,
-			Example: val,
-			Comment: p.endOfBlock(comment),
+			Target:      target,
+			Example:     val,
+			Comment:     p.endOfBlock(comment),
+			Annotations: options.Annotations,
 		}
 		if options.Name != "" {
 			ex.Name = options.Name
@@ -1015,6 +1016,9 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 	if err != nil {
 		return "", nil, nil, nil, options, "", err
 	}
+	if typeName == "List" {
+		typeName = "Array"
+	}
 	tok := p.GetToken()
 	if tok == nil {
 		return typeName, nil, nil, nil, options, "", nil
@@ -1023,9 +1027,8 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 		var params []string
 		var expectedParams int
 		switch typeName {
-		case "Array", "List":
+		case "Array":
 			expectedParams = 1
-			typeName = "Array"
 		case "Map", "UnitValue":
 			expectedParams = 2
 		case "Union":
-- 
2.43.0


From 0a768dfbf52d21b97fa0581f49a0353b3d389a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:24 +0000
Subject: [PATCH 100/173] fix: the SADL source of a model lost type
 annotations, defaults, options of enums and inline types, sizes of Bytes, and
 UnitValue types

---
 unparser.go | 207 ++++++++++++++++++++++++----------------------------
 1 file changed, 97 insertions(+), 110 deletions(-)

diff --git a/unparser.go b/unparser.go
index a243ffd..eda22a8 100644
--- a/unparser.go
+++ b/unparser.go
@@ -3,6 +3,7 @@ package sadl
 import (
 	"fmt"
 	"path/filepath"
+	"sort"
 	"strings"
 	"text/template"
 )
@@ -44,19 +45,12 @@ func (g *SadlGenerator) Generate() string {
 		"annotations": func(annos map[string]string) string {
 			s := ""
 			if len(annos) > 0 {
-				s = "\n"
-				for k, v := range annos {
-					if v == "" {
-						s += fmt.Sprintf("%s\n", k)
-					} else {
-						s += fmt.Sprintf("%s %q\n", k, v)
-					}
-				}
+				s = "\n" + strings.Join(annotationOptions(annos), "\n") + "\n"
 			}
 			return s
 		},
 		"typedef": func(td *TypeDef) string {
-			return fmt.Sprintf("type %s %s\n", td.Name, g.sadlTypeSpec(&td.TypeSpec, nil, ""))
+			return fmt.Sprintf("type %s %s\n", td.Name, g.sadlTypeSpec(&td.TypeSpec, annotationOptions(td.Annotations), ""))
 		},
 		"operation": func(op *OperationDef) string {
 			return g.sadlOperationSpec(op)
@@ -86,78 +80,85 @@ func (g *SadlGenerator) CreateSadlSource() {
 	}
 }
 
+// the annotations in the form of options, in a definite order
+func annotationOptions(annos map[string]string) []string {
+	var opts []string
+	for k, v := range annos {
+		if v == "" {
+			opts = append(opts, k)
+		} else {
+			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
+		}
+	}
+	sort.Strings(opts)
+	return opts
+}
+
+func formatOptions(opts []string) string {
+	if len(opts) > 0 {
+		return " (" + strings.Join(opts, ", ") + ")"
+	}
+	return ""
+}
+
+// a comment at the end of a line: there, it cannot have several lines
+func lineComment(comment string) string {
+	s := strings.Join(strings.Fields(comment), " ")
+	if s == "" {
+		return ""
+	}
+	return " // " + s
+}
+
 func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string) string {
+	if ts.Pattern != "" {
+		opts = append(opts, fmt.Sprintf("pattern=%q", ts.Pattern))
+	}
+	if ts.MinSize != nil {
+		opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
+	}
+	if ts.MaxSize != nil {
+		opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
+	}
+	if ts.Values != nil {
+		opts = append(opts, fmt.Sprintf("values=%s", stringList(ts.Values)))
+	}
+	if ts.Min != nil {
+		opts = append(opts, fmt.Sprintf("min=%v", ts.Min.String()))
+	}
+	if ts.Max != nil {
+		opts = append(opts, fmt.Sprintf("max=%v", ts.Max.String()))
+	}
+	if ts.Reference != "" {
+		opts = append(opts, "reference="+ts.Reference)
+	}
+	sopts := formatOptions(opts)
 	switch ts.Type {
 	case "Enum":
-		//Q: what if this is a required field, defined inline in a struct?!
 		s := "Enum {\n"
 		for _, el := range ts.Elements {
-			com := ""
-			if el.Comment != "" {
-				com = " // " + el.Comment
-			}
-			annos := AnnotationsAsString(el.Annotations)
-			s = s + indent + indentAmount + el.Symbol + annos + com + "\n"
-		}
-		return s + indent + "}"
-	case "String":
-		if ts.Pattern != "" {
-			opts = append(opts, fmt.Sprintf("pattern=%q", ts.Pattern))
-		}
-		if ts.MinSize != nil {
-			opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
-		}
-		if ts.MaxSize != nil {
-			opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
-		}
-		if ts.Values != nil {
-			opts = append(opts, fmt.Sprintf("values=%s", stringList(ts.Values)))
-		}
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
+			annos := formatOptions(annotationOptions(el.Annotations))
+			s = s + indent + indentAmount + el.Symbol + annos + lineComment(el.Comment) + "\n"
 		}
-		return fmt.Sprintf("String%s", sopts)
-	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
-		if ts.Min != nil {
-			opts = append(opts, fmt.Sprintf("min=%v", ts.Min.String()))
-		}
-		if ts.Max != nil {
-			opts = append(opts, fmt.Sprintf("max=%v", ts.Max.String()))
-		}
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
-		}
-		return fmt.Sprintf("%s%s", ts.Type, sopts)
+		return s + indent + "}" + sopts
 	case "Array":
-		if ts.MinSize != nil {
-			opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
-		}
-		if ts.MaxSize != nil {
-			opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
-		}
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
+		if ts.Items == "" {
+			return "List" + sopts
 		}
 		return fmt.Sprintf("List<%s>%s", ts.Items, sopts)
 	case "Map":
-		if ts.MinSize != nil {
-			opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
-		}
-		if ts.MaxSize != nil {
-			opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
-		}
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
+		if ts.Keys == "" && ts.Items == "" {
+			return "Map" + sopts
 		}
 		return fmt.Sprintf("Map<%s,%s>%s", ts.Keys, ts.Items, sopts)
+	case "UnitValue":
+		if ts.Value == "" && ts.Unit == "" {
+			return "UnitValue" + sopts
+		}
+		return fmt.Sprintf("UnitValue<%s,%s>%s", ts.Value, ts.Unit, sopts)
 	case "Struct":
-		sopt := ""
 		if len(ts.Fields) > 0 {
-			s := fmt.Sprintf("Struct%s {\n", sopt)
+			s := "Struct {\n"
 			blockLine := ""
 			for _, fd := range ts.Fields {
 				if len(fd.Comment) > 60 {
@@ -172,58 +173,44 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 					if blockLine != "" {
 						bcom = g.FormatComment(indent+indentAmount, fd.Comment, 100, false)
 					} else {
-						com = " // " + fd.Comment
+						com = lineComment(fd.Comment)
 					}
 				}
-				fopts := []string{}
-				if fd.Required {
-					fopts = append(fopts, "required")
-				}
-				for aname, aval := range fd.Annotations {
-					fopts = append(fopts, fmt.Sprintf("%s=%q", aname, aval))
-				}
-				s += fmt.Sprintf("%s%s%s%s %s%s\n", blockLine, bcom, indent+indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
+				s += fmt.Sprintf("%s%s%s%s %s%s\n", blockLine, bcom, indent+indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fieldOptions(fd), indent+indentAmount), com)
 			}
-			return s + indent + "}"
+			return s + indent + "}" + sopts
 		}
-		return fmt.Sprintf("Struct\n")
+		if sopts != "" {
+			return "Struct {\n" + indent + "}" + sopts
+		}
+		return "Struct"
 	case "Union":
-		if true {
-			s := fmt.Sprintf("Union {\n")
-			for _, fd := range ts.Variants {
-				com := ""
-				bcom := ""
-				if fd.Comment != "" {
-					if len(fd.Comment) > 100 {
-						bcom = g.FormatComment(indentAmount, fd.Comment, 100, false)
-					} else {
-						com = " // " + fd.Comment
-					}
-				}
-				fopts := []string{}
-				for aname, aval := range fd.Annotations {
-					fopts = append(fopts, fmt.Sprintf("%s=%q", aname, aval))
-				}
-				s += fmt.Sprintf("%s%s%s %s%s\n", bcom, indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
-			}
-			return s + "}"
-		} else {
-			s := fmt.Sprintf("Union<")
-			for i, v := range ts.Variants {
-				if i != 0 {
-					s += ","
-				}
-				s += v.Type
+		s := "Union {\n"
+		for _, fd := range ts.Variants {
+			com := ""
+			bcom := ""
+			if len(fd.Comment) > 100 {
+				bcom = g.FormatComment(indent+indentAmount, fd.Comment, 100, false)
+			} else {
+				com = lineComment(fd.Comment)
 			}
-			return s + ">"
+			s += fmt.Sprintf("%s%s%s %s%s\n", bcom, indent+indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, annotationOptions(fd.Annotations), indent+indentAmount), com)
 		}
+		return s + indent + "}" + sopts
 	default:
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
-		}
-		return fmt.Sprintf("%s%s", ts.Type, sopts)
+		return ts.Type + sopts
+	}
+}
+
+func fieldOptions(fd *StructFieldDef) []string {
+	var opts []string
+	if fd.Required {
+		opts = append(opts, "required")
+	}
+	if fd.Default != nil {
+		opts = append(opts, "default="+ToString(fd.Default))
 	}
+	return append(opts, annotationOptions(fd.Annotations)...)
 }
 
 func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
-- 
2.43.0


From 945f88405ac777c9571617c19559ab24b8c3e032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:44 +0000
Subject: [PATCH 101/173] fix: the SADL source of actions and operations lost
 options and annotations, had doubled options, and invented expectations;
 unnamed examples gave invalid source

---
 unparser.go | 132 ++++++++++++++++------------------------------------
 1 file changed, 41 insertions(+), 91 deletions(-)

diff --git a/unparser.go b/unparser.go
index eda22a8..d216e0c 100644
--- a/unparser.go
+++ b/unparser.go
@@ -59,7 +59,12 @@ func (g *SadlGenerator) Generate() string {
 			return g.sadlHttpSpec(hact)
 		},
 		"example": func(ed *ExampleDef) string {
-			return fmt.Sprintf("example %s (name=%s) %s\n", ed.Target, ed.Name, Pretty(ed.Example))
+			var opts []string
+			if ed.Name != "" {
+				opts = append(opts, "name="+ed.Name)
+			}
+			opts = append(opts, annotationOptions(ed.Annotations)...)
+			return fmt.Sprintf("example %s%s %s\n", ed.Target, formatOptions(opts), Pretty(ed.Example))
 		},
 	}
 	g.Begin()
@@ -214,58 +219,19 @@ func fieldOptions(fd *StructFieldDef) []string {
 }
 
 func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
-	var opts []string
-	if len(op.Annotations) > 0 {
-		for k, v := range op.Annotations {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
-		}
-	}
-	opt := ""
-	if len(opts) > 0 {
-		opt = " (" + strings.Join(opts, ", ") + ")"
-	}
-	var s string
-	s = fmt.Sprintf("operation %s %s {\n", op.Name, opt)
-	//s = fmt.Sprintf("action %s %s %q%s {\n", hact.Name, hact.Method, hact.Path, opt)
+	opt := formatOptions(annotationOptions(op.Annotations))
+	s := fmt.Sprintf("operation %s%s {\n", op.Name, opt)
 	if len(op.Inputs) > 0 {
 		s += indentAmount + "inputs {\n"
 		for _, in := range op.Inputs {
-			opts = nil
-			opt = ""
-			com := ""
-			bcom := ""
-			ts := g.sadlTypeSpec(&in.TypeSpec, nil, indentAmount)
-			if in.Required {
-				opts = append(opts, "required")
-			}
-			if in.Comment != "" {
-				if (len(in.Comment) + len(in.Name) + len(ts) + len(opt)) > 100 {
-					bcom = g.FormatComment("   ", in.Comment, 100, false)[3:] + "   "
-				} else {
-					com = " // " + in.Comment
-				}
-			}
-			if len(opts) > 0 {
-				opt = " (" + strings.Join(opts, ", ") + ")"
-			}
-			s += indentAmount + indentAmount + bcom + in.Name + " " + in.Type + opt + com + "\n"
+			s += g.sadlParam(indentAmount+indentAmount, in.Name, in.Type+formatOptions(fieldOptions(&in.StructFieldDef)), in.Comment)
 		}
 		s += indentAmount + "}\n"
 	}
 	if len(op.Outputs) > 0 {
 		s += indentAmount + "outputs {\n"
 		for _, out := range op.Outputs {
-			com := ""
-			bcom := ""
-			ts := g.sadlTypeSpec(&out.TypeSpec, nil, indentAmount)
-			if out.Comment != "" {
-				if (len(out.Comment) + len(out.Name) + len(ts) + len(opt)) > 100 {
-					bcom = g.FormatComment("   ", out.Comment, 100, false)[3:] + "   "
-				} else {
-					com = " // " + out.Comment
-				}
-			}
-			s += indentAmount + indentAmount + bcom + out.Name + " " + out.Type + opt + com + "\n"
+			s += g.sadlParam(indentAmount+indentAmount, out.Name, out.Type+formatOptions(annotationOptions(out.Annotations)), out.Comment)
 		}
 		s += indentAmount + "}\n"
 	}
@@ -282,40 +248,30 @@ func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
 
 func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 	var opts []string
-	if hact.Name != "" {
-		if hact.Name != actionName(hact) {
-			opts = append(opts, "operation="+hact.Name)
-		}
+	derived := hact.Resource != "" && hact.Name == actionName(hact)
+	if hact.Name != "" && !derived {
+		opts = append(opts, "operation="+hact.Name)
 	}
-	if len(hact.Annotations) > 0 {
-		for k, v := range hact.Annotations {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
-		}
-	}
-	opt := ""
-	if len(opts) > 0 {
-		opt = " (" + strings.Join(opts, ", ") + ")"
+	if hact.Resource != "" && (!derived || hact.Resource != resourceName(hact)) {
+		opts = append(opts, "resource="+hact.Resource)
 	}
+	opts = append(opts, annotationOptions(hact.Annotations)...)
 	var s string
-	s = fmt.Sprintf("http %s %q%s {\n", hact.Method, hact.Path, opt)
-	//s = fmt.Sprintf("action %s %s %q%s {\n", hact.Name, hact.Method, hact.Path, opt)
+	s = fmt.Sprintf("http %s %q%s {\n", hact.Method, hact.Path, formatOptions(opts))
 	for _, in := range hact.Inputs {
-		s += indentAmount + g.sadlParamSpec(in)
+		s += g.sadlParamSpec(indentAmount, in)
 	}
-	bcom := ""
-	if hact.Expected == nil {
-		hact.Expected = &HttpExpectedSpec{
-			Status: 200,
+	if hact.Expected != nil {
+		bcom := ""
+		if hact.Expected.Comment != "" {
+			bcom = g.FormatComment(indentAmount, hact.Expected.Comment, 100, false)
 		}
+		s += fmt.Sprintf("\n%s%sexpect %d%s {\n", bcom, indentAmount, hact.Expected.Status, formatOptions(annotationOptions(hact.Expected.Annotations)))
+		for _, out := range hact.Expected.Outputs {
+			s += g.sadlParamSpec(indentAmount+indentAmount, out)
+		}
+		s += indentAmount + "}\n"
 	}
-	if hact.Expected.Comment != "" {
-		bcom = g.FormatComment(indentAmount, hact.Expected.Comment, 100, false)
-	}
-	s += fmt.Sprintf("\n%s%sexpect %d {\n", bcom, indentAmount, hact.Expected.Status)
-	for _, out := range hact.Expected.Outputs {
-		s += indentAmount + indentAmount + g.sadlParamSpec(out)
-	}
-	s += "   }\n"
 	if len(hact.Exceptions) > 0 {
 		s += "\n"
 		for _, exc := range hact.Exceptions {
@@ -323,11 +279,12 @@ func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 			if exc.Comment != "" {
 				bcom = g.FormatComment(indentAmount, exc.Comment, 100, false)
 			}
+			annos := formatOptions(annotationOptions(exc.Annotations))
 			if exc.Status == 0 {
-				s += fmt.Sprintf("%s%sexcept %s\n", bcom, indentAmount, exc.Type)
+				s += fmt.Sprintf("%s%sexcept %s%s\n", bcom, indentAmount, exc.Type, annos)
 			} else {
 				//todo: header outputs
-				s += fmt.Sprintf("%s%sexcept %d %s\n", bcom, indentAmount, exc.Status, exc.Type)
+				s += fmt.Sprintf("%s%sexcept %d %s%s\n", bcom, indentAmount, exc.Status, exc.Type, annos)
 			}
 		}
 	}
@@ -335,32 +292,25 @@ func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 	return s
 }
 
-func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec) string {
-	var opts []string
-	if ps.Required {
-		opts = append(opts, "required")
-	}
-	if ps.Default != nil {
-		opts = append(opts, "default="+ToString(ps.Default))
-	}
+func (g *SadlGenerator) sadlParamSpec(indent string, ps *HttpParamSpec) string {
+	opts := fieldOptions(&ps.StructFieldDef)
 	if ps.Header != "" {
 		opts = append(opts, fmt.Sprintf("header=%q", ps.Header))
 	}
-	opt := ""
-	if len(opts) > 0 {
-		opt = " (" + strings.Join(opts, ", ") + ")"
-	}
+	return g.sadlParam(indent, ps.Name, g.sadlTypeSpec(&ps.TypeSpec, opts, indent), ps.Comment)
+}
+
+func (g *SadlGenerator) sadlParam(indent, name, spec, comment string) string {
 	com := ""
 	bcom := ""
-	ts := g.sadlTypeSpec(&ps.TypeSpec, nil, indentAmount)
-	if ps.Comment != "" {
-		if (len(ps.Comment) + len(ps.Name) + len(ts) + len(opt)) > 100 {
-			bcom = g.FormatComment("   ", ps.Comment, 100, false)[3:] + "   "
+	if comment != "" {
+		if (len(comment) + len(name) + len(spec)) > 100 {
+			bcom = g.FormatComment(indent, comment, 100, false)
 		} else {
-			com = " // " + ps.Comment
+			com = lineComment(comment)
 		}
 	}
-	return bcom + ps.Name + " " + ts + opt + com + "\n"
+	return bcom + indent + name + " " + spec + com + "\n"
 }
 
 func stringList(lst []string) string {
-- 
2.43.0


From f7b616b41c8386385ad4d6d75b3ccf080d177e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:10 +0000
Subject: [PATCH 102/173] fix: model names that are not identifiers gave
 invalid SADL source

---
 unparser.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/unparser.go b/unparser.go
index d216e0c..617680c 100644
--- a/unparser.go
+++ b/unparser.go
@@ -3,6 +3,7 @@ package sadl
 import (
 	"fmt"
 	"path/filepath"
+	"regexp"
 	"sort"
 	"strings"
 	"text/template"
@@ -10,6 +11,9 @@ import (
 
 const indentAmount = "    "
 
+var namePattern = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z_0-9]*$`)
+var namespacePattern = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z_0-9]*(\.[a-zA-Z_][a-zA-Z_0-9]*)*$`)
+
 type SadlGenerator struct {
 	Generator
 	Model *Model
@@ -42,6 +46,18 @@ func (g *SadlGenerator) Generate() string {
 		"literal": func(s string) string {
 			return fmt.Sprintf("%q", s)
 		},
+		"name": func(s string) string {
+			if !namePattern.MatchString(s) {
+				return fmt.Sprintf("%q", s)
+			}
+			return s
+		},
+		"namespace": func(s string) string {
+			if !namespacePattern.MatchString(s) {
+				return fmt.Sprintf("%q", s)
+			}
+			return s
+		},
 		"annotations": func(annos map[string]string) string {
 			s := ""
 			if len(annos) > 0 {
@@ -330,10 +346,10 @@ func stringList(lst []string) string {
 	return result + end + "]"
 }
 
-const sadlTemplate = `{{if .Comment}}{{blockComment .Comment}}{{end}}{{if .Namespace}}namespace {{.Namespace}}
-{{end}}{{if .Name}}name {{.Name}}
+const sadlTemplate = `{{if .Comment}}{{blockComment .Comment}}{{end}}{{if .Namespace}}namespace {{namespace .Namespace}}
+{{end}}{{if .Name}}name {{name .Name}}
 {{end}}{{if .Base}}base {{literal .Base}}
-{{end}}{{if .Version}}version "{{.Version}}"
+{{end}}{{if .Version}}version {{literal .Version}}
 {{end}}{{annotations .Annotations}}{{if .Types}}{{range .Types}}
 {{blockComment .Comment}}{{typedef .}}{{end}}{{end}}{{if .Operations}}{{range .Operations}}
 {{blockComment .Comment}}{{operation .}}{{end}}{{end}}{{if .Http}}{{range .Http}}
-- 
2.43.0


From d29866636e708eddd680434309ab7d3fb0cc0f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:04 +0000
Subject: [PATCH 103/173] fix: a comment after the options of a struct or enum
 was given to the next type

---
 parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.go b/parser.go
index db90fde..b945273 100644
--- a/parser.go
+++ b/parser.go
@@ -1218,6 +1218,7 @@ func (p *Parser) parseStructDef(td *TypeDef, fields []*StructFieldDef) error {
 	err := p.parseTypeOptions(td)
 	if err == nil {
 		td.Fields = fields
+		td.Comment = p.endOfBlock(td.Comment)
 	}
 	return err
 }
@@ -1226,6 +1227,7 @@ func (p *Parser) parseEnumDef(td *TypeDef, elements []*EnumElementDef) error {
 	err := p.parseTypeOptions(td)
 	if err == nil {
 		td.Elements = elements
+		td.Comment = p.endOfBlock(td.Comment)
 	}
 	return err
 }
-- 
2.43.0


From b63ecf9d860a5db7522b9ad9a0eef8b15c5a543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:32 +0000
Subject: [PATCH 104/173] fix: a semicolon after an inline struct or enum was
 lost

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index b945273..9ec5e8d 100644
--- a/parser.go
+++ b/parser.go
@@ -1088,7 +1088,7 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 					}
 					fields = append(fields, field)
 				}
-				comment = p.endOfBlock(comment)
+				comment = p.ParseTrailingComment(comment)
 				return typeName, nil, fields, nil, options, comment, nil
 			case "Enum":
 				var elements []*EnumElementDef
@@ -1109,7 +1109,7 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 					}
 					elements = append(elements, element)
 				}
-				comment = p.endOfBlock(comment)
+				comment = p.ParseTrailingComment(comment)
 				return typeName, nil, nil, elements, options, comment, nil
 			}
 			return typeName, nil, nil, nil, options, comment, p.SyntaxError()
-- 
2.43.0


From fa12c664a007d090f09daf83fc1d66fcae5b8cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:45 +0000
Subject: [PATCH 105/173] fix: a result with the name of a path or query
 parameter was taken to be in the path or query

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 9ec5e8d..40763df 100644
--- a/parser.go
+++ b/parser.go
@@ -721,6 +721,9 @@ func (p *Parser) parseHttpSpec(op *HttpDef, comment string, top bool) error {
 		return err
 	}
 
+	if !top { //results are never in the path or query, even if a parameter there has the same name
+		pathTemplate = ""
+	}
 	paramType, paramName := p.parameterSource(pathTemplate, ename, options)
 	switch paramType {
 	case "path":
-- 
2.43.0


From c3588bcf59cba073652a1109b7907341f1cc4afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:30 +0000
Subject: [PATCH 106/173] fix: a struct with options but no fields was rejected
 at the end of the source

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 40763df..eda2d74 100644
--- a/parser.go
+++ b/parser.go
@@ -1066,7 +1066,7 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 			}
 			tok = p.GetToken()
 			if tok == nil {
-				return typeName, nil, nil, nil, options, "", p.EndOfFileError()
+				return typeName, nil, nil, nil, options, "", nil
 			}
 		}
 		if tok.Type == scanner.OPEN_BRACE {
-- 
2.43.0


From 96c4be3efa21227482f834b6bc3c2571cd3b4962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:23 +0000
Subject: [PATCH 107/173] fix: the examples of included files were lost

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index eda2d74..856a5d0 100644
--- a/parser.go
+++ b/parser.go
@@ -360,6 +360,10 @@ func (p *Parser) parseIncludeDirective(comment string) error {
 				op.Annotations = p.addAnnotation(op.Annotations, "x_include", fname)
 				p.schema.Operations = append(p.schema.Operations, op)
 			}
+			for _, ex := range inc.Examples {
+				ex.Annotations = p.addAnnotation(ex.Annotations, "x_include", fname)
+				p.schema.Examples = append(p.schema.Examples, ex)
+			}
 		}
 	}
 	return err
-- 
2.43.0


From e78968bb956f3be07037cadd7f75435af98d653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:23 +0000
Subject: [PATCH 108/173] fix: a file that includes itself crashed the parser

---
 parser.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 856a5d0..65e12a3 100644
--- a/parser.go
+++ b/parser.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
+	"path/filepath"
 	"strconv"
 	"strings"
 
@@ -11,7 +12,7 @@ import (
 )
 
 func ParseSadlFile(path string, conf *Data, extensions ...Extension) (*Model, error) {
-	p, err := parseFileNoValidate(path, conf, extensions)
+	p, err := parseFileNoValidate(path, conf, extensions, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -69,6 +70,7 @@ type Parser struct {
 	atEnd          bool
 	currentComment string
 	extensions     map[string]Extension
+	includer       *Parser
 }
 
 type Extension interface {
@@ -78,7 +80,12 @@ type Extension interface {
 	Validate(p *Parser) error
 }
 
-func parseFileNoValidate(path string, conf *Data, extensions []Extension) (*Parser, error) {
+func parseFileNoValidate(path string, conf *Data, extensions []Extension, includer *Parser) (*Parser, error) {
+	for p := includer; p != nil; p = p.includer {
+		if filepath.Clean(p.path) == filepath.Clean(path) {
+			return nil, fmt.Errorf("File includes itself: %s", path)
+		}
+	}
 	b, err := ioutil.ReadFile(path)
 	if err != nil {
 		return nil, err
@@ -89,6 +96,8 @@ func parseFileNoValidate(path string, conf *Data, extensions []Extension) (*Pars
 		path:    path,
 		source:  src,
 		conf:    conf,
+
+		includer: includer,
 	}
 	err = p.ParseNoValidate(extensions)
 	if err != nil {
@@ -338,7 +347,7 @@ func (p *Parser) parseIncludeDirective(comment string) error {
 	fname, err := p.ExpectString()
 	if err == nil {
 		var incparser *Parser
-		incparser, err = parseFileNoValidate(fname, p.conf, p.extensionList())
+		incparser, err = parseFileNoValidate(fname, p.conf, p.extensionList(), p)
 		if err == nil {
 			inc := incparser.model
 			tmpModel, err := NewModel(p.schema)
-- 
2.43.0


From 4b04e416e22e95f98f3ec6161b473041ab11656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:43 +0000
Subject: [PATCH 109/173] fix: numbers in defaults and examples of models
 loaded from JSON lost digits

---
 parser.go | 65 ++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 64 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 65e12a3..091105b 100644
--- a/parser.go
+++ b/parser.go
@@ -1,8 +1,10 @@
 package sadl
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"path/filepath"
 	"strconv"
@@ -25,16 +27,77 @@ func LoadModel(path string) (*Model, error) {
 		return nil, fmt.Errorf("Cannot read file %q: %v\n", path, err)
 	}
 	var schema Schema
-	err = json.Unmarshal(data, &schema)
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
+	err = dec.Decode(&schema)
+	if err == nil {
+		if _, end := dec.Token(); end != io.EOF {
+			err = fmt.Errorf("data after the model")
+		}
+	}
 	if err != nil {
 		return nil, fmt.Errorf("Cannot parse file %q: %v\n", path, err)
 	}
+	decimalLiterals(&schema)
 	if schema.Sadl == "" {
 		return nil, fmt.Errorf("Cannot load file %q: %v\n", path, err)
 	}
 	return NewModel(&schema)
 }
 
+// the numbers of defaults and examples, as the parser represents them
+func decimalLiterals(schema *Schema) {
+	var fields func(fs []*StructFieldDef)
+	fields = func(fs []*StructFieldDef) {
+		for _, f := range fs {
+			f.Default = decimalLiteral(f.Default)
+			fields(f.Fields)
+		}
+	}
+	for _, td := range schema.Types {
+		fields(td.Fields)
+		for _, v := range td.Variants {
+			fields(v.Fields)
+		}
+	}
+	for _, op := range schema.Operations {
+		for _, in := range op.Inputs {
+			fields([]*StructFieldDef{&in.StructFieldDef})
+		}
+	}
+	for _, hact := range schema.Http {
+		for _, in := range hact.Inputs {
+			fields([]*StructFieldDef{&in.StructFieldDef})
+		}
+		if hact.Expected != nil {
+			for _, out := range hact.Expected.Outputs {
+				fields([]*StructFieldDef{&out.StructFieldDef})
+			}
+		}
+	}
+	for _, ex := range schema.Examples {
+		ex.Example = decimalLiteral(ex.Example)
+	}
+}
+
+func decimalLiteral(val interface{}) interface{} {
+	switch v := val.(type) {
+	case json.Number:
+		if d, err := ParseDecimal(v.String()); err == nil {
+			return d
+		}
+	case []interface{}:
+		for i := range v {
+			v[i] = decimalLiteral(v[i])
+		}
+	case map[string]interface{}:
+		for k := range v {
+			v[k] = decimalLiteral(v[k])
+		}
+	}
+	return val
+}
+
 func IsValidFile(path string) bool {
 	if strings.HasSuffix(path, ".sadl") {
 		return true
-- 
2.43.0


From 315c6957f4467d7e51c90c08d9f54d09581cc541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:29 +0000
Subject: [PATCH 110/173] fix: examples of nested fields and of http parameters
 were rejected

---
 parser.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/parser.go b/parser.go
index 091105b..f4a446a 100644
--- a/parser.go
+++ b/parser.go
@@ -2270,21 +2270,10 @@ func (p *Parser) validateExample(ex *ExampleDef) error {
 	var ts *TypeSpec
 	if td != nil {
 		ts = &td.TypeSpec
-	} else {
-		n := strings.Index(ex.Target, ".")
-		if n > 0 {
-			tname := ex.Target[:n]
-			mname := ex.Target[n+1:]
-			td = p.model.FindType(tname)
-			if td != nil {
-				if td.Type == "Struct" {
-					for _, fdef := range td.Fields {
-						if fdef.Name == mname {
-							ts = &fdef.TypeSpec
-						}
-					}
-				}
-			}
+	} else if strings.Contains(ex.Target, ".") {
+		ts, err = p.model.FindExampleType(ex)
+		if err != nil {
+			return err
 		}
 	}
 	if ts == nil {
-- 
2.43.0


From e047ead07b8a313475edef496c8dcc37e7b4225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:58 +0000
Subject: [PATCH 111/173] fix: exporting an http action without expected
 response crashed

---
 golang/export_golang.go           | 5 +++++
 httptrace/export_http_examples.go | 3 +++
 java/export_java.go               | 5 +++++
 openapi/export_openapi.go         | 3 +++
 4 files changed, 16 insertions(+)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index e80959c..b53084a 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -79,6 +79,11 @@ func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generato
 		}
 	}
 	gen.runtime = gen.GetConfigBool("runtime", false)
+	for _, hd := range model.Http {
+		if hd.Expected == nil && gen.Err == nil {
+			gen.Err = fmt.Errorf("HTTP action %q has no expected response", hd.Name)
+		}
+	}
 	return gen
 }
 
diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index e187b6f..1598ad2 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -125,6 +125,9 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			s := method + " " + path + " HTTP/1.1\n" + headers + "\n" + bodyExample
 			body = body + "\n" + s + "\n"
 			
+			if resExample != nil && hdef.Expected == nil {
+				return "", fmt.Errorf("HTTP action %q has no expected response", hdef.Name)
+			}
 			if resExample != nil {
 				body = body + "#   Response:"
 				status := hdef.Expected.Status
diff --git a/java/export_java.go b/java/export_java.go
index 5e603f4..7b5e629 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -145,6 +145,11 @@ func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generato
 		gen.ClientPackage = gen.GetConfigString("client-package", pkg+".client")
 		gen.EnsurePackageDir(gen.ClientPackage)
 	}
+	for _, hact := range model.Http {
+		if hact.Expected == nil && gen.Err == nil {
+			gen.Err = fmt.Errorf("HTTP action %q has no expected response", hact.Name)
+		}
+	}
 	return gen
 }
 
diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 95d85f8..54e0aff 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -194,6 +194,9 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 			param.Schema = tr
 			op.Parameters = append(op.Parameters, param)
 		}
+		if hdef.Expected == nil {
+			return nil, fmt.Errorf("HTTP action %q has no expected response", hdef.Name)
+		}
 		responses := make(map[string]*Response, 0)
 		op.Responses = responses
 		content := make(map[string]*MediaType)
-- 
2.43.0


From 5e3e86946aae9c564e7074d1436a491c1d5683ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:39 +0000
Subject: [PATCH 112/173] fix: generated Go servers had wrong defaults for
 parameters of parsed models and of models loaded from JSON

---
 golang/golang_server.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 973daf5..04e9cb5 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -218,6 +218,8 @@ func stringDefault(any interface{}) string {
 	switch v := any.(type) {
 	case string:
 		return v
+	case *string:
+		return *v
 	default:
 		return fmt.Sprint(any)
 	}
@@ -227,6 +229,8 @@ func timestampDefault(any interface{}) string {
 	switch v := any.(type) {
 	case *sadl.Timestamp:
 		return fmt.Sprintf("timestampDefault(%q)", v.String())
+	case *string:
+		return timestampDefault(*v)
 	case string:
 		ts, err := sadl.ParseTimestamp(v)
 		if err == nil {
@@ -237,11 +241,8 @@ func timestampDefault(any interface{}) string {
 }
 
 func intDefault(v interface{}) int64 {
-	if v != nil {
-		switch n := v.(type) {
-		case *sadl.Decimal:
-			return n.AsInt64()
-		}
+	if n := sadl.DecimalValue(nil, v); n != nil {
+		return n.AsInt64()
 	}
 	return 0
 }
-- 
2.43.0


From 2e972f03c9bf26bf0839a00f3c3d884bdec13f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:25 +0000
Subject: [PATCH 113/173] fix: an OpenAPI schema named Decimal that is not a
 number was dropped without an error

---
 openapi/import_openapi.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 6e9c452..b1c4635 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -258,7 +258,9 @@ func validSadlName(name string, oasSchema *Schema) string {
 			return ""
 		}
 	} else if name == "Decimal" {
-		return ""
+		if oasSchema.Type == "number" || oasSchema.Type == "string" {
+			return ""
+		}
 	}
 	return name
 }
-- 
2.43.0


From e961baeee2fd186f36fdd765d6531520a3745a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:33 +0000
Subject: [PATCH 114/173] fix: the OpenAPI export of an inline union referred
 to a schema without name

---
 openapi/export_openapi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 54e0aff..cf7f4b7 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -654,6 +654,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 	case "Any":
 		return &Schema{}, nil
 	case "Union":
+		if name == "" {
+			return gen.exportUnionTypeDef(&sadl.TypeDef{TypeSpec: *td})
+		}
 		return &Schema{
 			Ref: "#/components/schemas/" + name,
 		}, nil
-- 
2.43.0


From 1301bc877bb99ce35bfc5ef3e02800e6f23db810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:57 +0000
Subject: [PATCH 115/173] fix: enum values with quotes or backslashes gave Go
 code that does not compile or has other values

---
 golang/golang_model.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 3dbdc55..1b5700f 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -1,6 +1,7 @@
 package golang
 
 import (
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -207,9 +208,9 @@ func (gen *Generator) EmitEnumType(td *sadl.TypeDef) {
 		"enumValue": func(el sadl.EnumElementDef) string {
 			val := sadl.GetAnnotation(el.Annotations, "x_enumValue")
 			if val == "" {
-				return el.Symbol
+				val = el.Symbol
 			}
-			return val
+			return strconv.Quote(val)
 		},
 	}
 	gen.addImport("encoding/json")
@@ -225,7 +226,7 @@ const (
 )
 
 var names{{.Name}} = []string{{openBrace}}{{range .Elements}}
-    {{.Symbol}}: "{{enumValue .}}",{{end}}
+    {{.Symbol}}: {{enumValue .}},{{end}}
 }
 
 func (e {{.Name}}) String() string {
-- 
2.43.0


From 688b623c788fb736eb145061dc80aab987b2fd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:58 +0000
Subject: [PATCH 116/173] fix: capitalizing a name that starts with a letter
 beyond ASCII damaged the letter

---
 generator.go | 5 ++---
 misc.go      | 7 +++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/generator.go b/generator.go
index e19a8cb..e2462d7 100644
--- a/generator.go
+++ b/generator.go
@@ -5,7 +5,6 @@ import (
 	"bytes"
 	"fmt"
 	"os"
-	"strings"
 	"text/template"
 )
 
@@ -105,11 +104,11 @@ func (gen *Generator) EmitTemplate(name string, tmplSource string, data interfac
 }
 
 func (gen *Generator) Capitalize(s string) string {
-	return strings.ToUpper(s[0:1]) + s[1:]
+	return Capitalize(s)
 }
 
 func (gen *Generator) Uncapitalize(s string) string {
-	return strings.ToLower(s[0:1]) + s[1:]
+	return Uncapitalize(s)
 }
 
 func (gen *Generator) FileExists(path string) bool {
diff --git a/misc.go b/misc.go
index 3ba1c1c..6b7b479 100644
--- a/misc.go
+++ b/misc.go
@@ -8,20 +8,23 @@ import (
 	"reflect"
 	"sort"
 	"strings"
+	"unicode/utf8"
 )
 
 func Capitalize(s string) string {
 	if s == "" {
 		return s
 	}
-	return strings.ToUpper(s[0:1]) + s[1:]
+	_, n := utf8.DecodeRuneInString(s)
+	return strings.ToUpper(s[0:n]) + s[n:]
 }
 
 func Uncapitalize(s string) string {
 	if s == "" {
 		return s
 	}
-	return strings.ToLower(s[0:1]) + s[1:]
+	_, n := utf8.DecodeRuneInString(s)
+	return strings.ToLower(s[0:n]) + s[n:]
 }
 
 func IsSymbolChar(ch rune, first bool) bool {
-- 
2.43.0


From 6ead7a248d4beae461f3bd1c7ac0f29971f2dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:01 +0000
Subject: [PATCH 117/173] fix: comments with a backslash before a u, or a
 carriage return, gave Java code that does not compile

---
 java/export_java.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/java/export_java.go b/java/export_java.go
index 7b5e629..34b3ef6 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -190,6 +190,12 @@ func (gen *Generator) CreateJavaFileFromTemplate(name string, tmpl string, data
 	}
 }
 
+// a unicode escape is translated in a comment, too, and a carriage return ends it
+func (gen *Generator) FormatComment(indent, comment string, maxcol int, extraPad bool) string {
+	comment = strings.NewReplacer("\\u", "&#92;u", "\r\n", "\n", "\r", "\n").Replace(comment)
+	return gen.Generator.FormatComment(indent, comment, maxcol, extraPad)
+}
+
 func (gen *Generator) CreatePojoFromDef(td *sadl.TypeDef, exceptions map[string]string) {
 	className := gen.Capitalize(td.Name)
 	gen.CreatePojo(&td.TypeSpec, className, td.Comment, exceptions)
-- 
2.43.0


From 135867376849523a43ea6d9a7c5f60e31da2be93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:01 +0000
Subject: [PATCH 118/173] fix: a comment with a carriage return gave GraphQL
 that is not valid

---
 graphql/export_graphql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 5e4f0fa..d59c44b 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -103,7 +103,7 @@ func (w *GraphqlWriter) EmitStructDef(td *sadl.TypeDef) error {
 		}
 		if fd.Comment != "" {
 			//TO DO: format as block before the field
-			w.Emit("  # %s\n", strings.Replace(fd.Comment, "\n", "\n  # ", -1))
+			w.Emit("  # %s\n", strings.NewReplacer("\r\n", "\n  # ", "\r", "\n  # ", "\n", "\n  # ").Replace(fd.Comment))
 		}
 		ftype, err := w.typeRef(&fd.TypeSpec, 0)
 		if err != nil {
-- 
2.43.0


From 7207283d0f2c8dc062f84f536ffb7127e3c94c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:42 +0000
Subject: [PATCH 119/173] fix: comparing collections that contain themselves
 crashed, and unions with different inline variants were equivalent

---
 model.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/model.go b/model.go
index 478c2b6..e7d650b 100644
--- a/model.go
+++ b/model.go
@@ -59,6 +59,11 @@ func (model *Model) FindHttp(name string) *HttpDef {
 }
 
 func (model *Model) EquivalentTypesByName(tname1, tname2 string) bool {
+	return model.equivalentTypesByName(tname1, tname2, make(map[[2]string]bool, 0))
+}
+
+// the pairs already being compared are taken to be equivalent, so that types that contain themselves can be compared
+func (model *Model) equivalentTypesByName(tname1, tname2 string, seen map[[2]string]bool) bool {
 	if tname1 == tname2 {
 		return true
 	}
@@ -67,7 +72,12 @@ func (model *Model) EquivalentTypesByName(tname1, tname2 string) bool {
 	if td1 == nil || td2 == nil {
 		return false
 	}
-	return model.EquivalentTypes(&td1.TypeSpec, &td2.TypeSpec)
+	pair := [2]string{tname1, tname2}
+	if seen[pair] {
+		return true
+	}
+	seen[pair] = true
+	return model.equivalentTypes(&td1.TypeSpec, &td2.TypeSpec, seen)
 }
 
 func equalSizes(ts1, ts2 *TypeSpec) bool {
@@ -82,6 +92,10 @@ func equalDecimals(d1, d2 *Decimal) bool {
 }
 
 func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
+	return model.equivalentTypes(ts1, ts2, make(map[[2]string]bool, 0))
+}
+
+func (model *Model) equivalentTypes(ts1, ts2 *TypeSpec, seen map[[2]string]bool) bool {
 	if ts1.Type != ts2.Type {
 		return false
 	}
@@ -115,7 +129,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 		}
 		for i, f1 := range ts1.Fields {
 			f2 := ts2.Fields[i]
-			if f1.Name != f2.Name || f1.Required != f2.Required || f1.Items != f2.Items || f1.Keys != f2.Keys || !model.EquivalentTypes(&f1.TypeSpec, &f2.TypeSpec) {
+			if f1.Name != f2.Name || f1.Required != f2.Required || f1.Items != f2.Items || f1.Keys != f2.Keys || !model.equivalentTypes(&f1.TypeSpec, &f2.TypeSpec, seen) {
 				return false
 			}
 		}
@@ -124,20 +138,20 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "UnitValue":
-		if !model.EquivalentTypesByName(ts1.Unit, ts2.Unit) {
+		if !model.equivalentTypesByName(ts1.Unit, ts2.Unit, seen) {
 			return false
 		}
-		if !model.EquivalentTypesByName(ts1.Value, ts2.Value) {
+		if !model.equivalentTypesByName(ts1.Value, ts2.Value, seen) {
 			return false
 		}
 	case "Array", "Map":
 		if !equalSizes(ts1, ts2) {
 			return false
 		}
-		if !model.EquivalentTypesByName(ts1.Items, ts2.Items) {
+		if !model.equivalentTypesByName(ts1.Items, ts2.Items, seen) {
 			return false
 		}
-		if !model.EquivalentTypesByName(ts1.Keys, ts2.Keys) {
+		if !model.equivalentTypesByName(ts1.Keys, ts2.Keys, seen) {
 			return false
 		}
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
@@ -163,12 +177,13 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 		if len(ts1.Variants) != len(ts2.Variants) {
 			return false
 		}
-		m := make(map[string]bool, 0)
+		m := make(map[string]*UnionVariantDef, 0)
 		for _, v := range ts1.Variants {
-			m[v.Name+" "+v.Type] = true
+			m[v.Name] = v
 		}
 		for _, v := range ts2.Variants {
-			if _, ok := m[v.Name+" "+v.Type]; !ok {
+			v1, ok := m[v.Name]
+			if !ok || v1.Items != v.Items || v1.Keys != v.Keys || !model.equivalentTypes(&v1.TypeSpec, &v.TypeSpec, seen) {
 				return false
 			}
 		}
-- 
2.43.0


From 7e9ee7a8474a3f29061b9b95cf00d5b4c7835966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:15 +0000
Subject: [PATCH 120/173] fix: generated Go for the default exception did not
 compile or answered status 0, and clients with two responses of one status
 did not compile

---
 golang/golang_client.go | 11 ++++++++++-
 golang/golang_server.go |  6 +++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 91694fb..58c4d75 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -151,9 +151,18 @@ func (gen *Generator) EmitClient() {
 		},
 		"exceptionResults": func(hd *sadl.HttpDef) string {
 			s := ""
+			seen := map[int32]bool{hd.Expected.Status: true}
 			for _, es := range hd.Exceptions {
 				natType := gen.nativeType(es.Type)
-				s = s + fmt.Sprintf("\tcase %d:\n", es.Status)
+				if seen[es.Status] && gen.Err == nil {
+					gen.Err = fmt.Errorf("HTTP action %q has more than one response with status %d", hd.Name, es.Status)
+				}
+				seen[es.Status] = true
+				if es.Status == 0 {
+					s = s + "\tdefault:\n"
+				} else {
+					s = s + fmt.Sprintf("\tcase %d:\n", es.Status)
+				}
 				s = s + "\t\tvar errEntity " + natType + "\n"
 				s = s + "\t\terr = json.NewDecoder(res.Body).Decode(&errEntity)\n"
 				s = s + "\t\tif err != nil {\n"
diff --git a/golang/golang_server.go b/golang/golang_server.go
index 04e9cb5..a339883 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -110,7 +110,11 @@ func (gen *Generator) EmitServerAdaptor() {
 			s := ""
 			for _, e := range hd.Exceptions {
 				s = s + "\t\tcase " + gen.nativeType(e.Type) + ":\n"
-				s = s + fmt.Sprintf("\t\t\tjsonResponse(w, %d, err)\n", e.Status)
+				status := e.Status
+				if status == 0 {
+					status = 500 //the default exception
+				}
+				s = s + fmt.Sprintf("\t\t\tjsonResponse(w, %d, err)\n", status)
 			}
 			return s
 		},
-- 
2.43.0


From 533da0eef219e91086869b46262e1713cc1ddc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:15 +0000
Subject: [PATCH 121/173] fix: generated Java servers answered the default
 exception with status 0, and clients with two responses of one status did not
 compile

---
 java/java_client.go | 17 ++++++++++++++---
 java/java_server.go | 12 ++++++++++--
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 1e3d803..2b1449a 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -177,16 +177,27 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 					writer.WriteString("                ;\n")
 				}
 			}
+			seen := map[int32]bool{hact.Expected.Status: true}
 			for _, exc := range hact.Exceptions {
-				writer.WriteString("        case " + fmt.Sprint(exc.Status) + ":\n")
+				if seen[exc.Status] && gen.Err == nil {
+					gen.Err = fmt.Errorf("HTTP action %q has more than one response with status %d", hact.Name, exc.Status)
+				}
+				seen[exc.Status] = true
+				if exc.Status == 0 {
+					writer.WriteString("        default:\n")
+				} else {
+					writer.WriteString("        case " + fmt.Sprint(exc.Status) + ":\n")
+				}
 				entity := "response.readEntity(" + gen.Capitalize(exc.Type) + ".class)"
 				if gen.Config.GetBool("service-exception") {
 					entity = "new ServiceException().entity(" + entity + ")"
 				}
 				writer.WriteString("            throw " + entity + ";\n")
 			}
-			writer.WriteString("        default:\n")
-			writer.WriteString("            throw new RuntimeException(\"Unexpected service response status: \" + response.getStatus());\n")
+			if !seen[0] {
+				writer.WriteString("        default:\n")
+				writer.WriteString("            throw new RuntimeException(\"Unexpected service response status: \" + response.getStatus());\n")
+			}
 			writer.WriteString("        }\n")
 			writer.Flush()
 			return b.String()
diff --git a/java/java_server.go b/java/java_server.go
index aaf2d5d..476857b 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -67,6 +67,14 @@ func (gen *Generator) ExceptionTypes() map[string]string {
 	return exceptions
 }
 
+// the default exception has no status of its own
+func exceptionStatus(exc *sadl.HttpExceptionSpec) int32 {
+	if exc.Status == 0 {
+		return 500
+	}
+	return exc.Status
+}
+
 func firstTag(annos map[string]string) string {
 	if csv, ok := annos["x_tags"]; ok {
 		return strings.Split(csv, ",")[0]
@@ -298,7 +306,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 						} else {
 							writer.WriteString("            } else if (_entity instanceof " + tn + ") {\n")
 						}
-						writer.WriteString(fmt.Sprintf("                _status = %d;\n", resp.Status))
+						writer.WriteString(fmt.Sprintf("                _status = %d;\n", exceptionStatus(resp)))
 						if resp.Status == 204 || resp.Status == 304 {
 							writer.WriteString("                _entity = null;\n")
 							anyNull = true
@@ -316,7 +324,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				writer.WriteString("            throw new WebApplicationException(Response.status(_status).entity(_entity).build());\n")
 			} else {
 				for _, resp := range hact.Exceptions {
-					status := fmt.Sprint(resp.Status)
+					status := fmt.Sprint(exceptionStatus(resp))
 					tn, _, _ := gen.TypeName(nil, resp.Type, true)
 					writer.WriteString("        } catch (" + tn + " _e) {\n")
 					writer.WriteString("                throw new WebApplicationException(Response.status(" + status + ").entity(_e).build());\n")
-- 
2.43.0


From e3096dfbb5c0d6afb9dfef41e3fd343b7ff000b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:15 +0000
Subject: [PATCH 122/173] fix: HTTP trace showed status 0 for the default
 exception

---
 httptrace/export_http_examples.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 1598ad2..a1508db 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -151,6 +151,9 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 					}
 				} else {
 					status = data.exc.Status
+					if status == 0 {
+						status = 500 //the default exception
+					}
 					bodyExample = sadl.Pretty(resExample)
 				}
 				headers = headers + "Date: " + dateHeader() + "\n"
-- 
2.43.0


From 892c70d86e09f997557c38e1e1fc594cdad55903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:15 +0000
Subject: [PATCH 123/173] fix: OpenAPI export silently dropped a response when
 two had the same status

---
 openapi/export_openapi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index cf7f4b7..2463707 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -260,6 +260,9 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 			if out.Status != 0 {
 				key = fmt.Sprint(out.Status)
 			}
+			if _, ok := responses[key]; ok {
+				return nil, fmt.Errorf("HTTP action %q has more than one response with status %s", hdef.Name, key)
+			}
 			responses[key] = resp
 		}
 	}
-- 
2.43.0


From 62dd7da6240741c66880edb15acb8f1e939ea265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:42 +0000
Subject: [PATCH 124/173] fix: Smithy export wrote references to nothing for
 inline lists, maps, enums, structs and unions, and lost the constraints and
 comments of fields

---
 smithy/export_smithy.go | 121 +++++++++++++++++-----------------------
 1 file changed, 51 insertions(+), 70 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index d378185..62aa97c 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -416,67 +416,53 @@ func getAnnotation(annos map[string]string, key string) string {
 	return ""
 }
 
-func listTypeReference(model *sadl.Model, ns string, shapes *smithylib.Shapes, prefix string, fd *sadl.StructFieldDef) string {
-	ftype := capitalize(prefix) + capitalize(fd.Name)
-	td := model.FindType(ftype)
-	if td != nil {
-		fmt.Printf("Inline defs not allowed, synthesize %q to refer to: %s\n", ftype, sadl.Pretty(fd))
-		panic("Already have one with that name!!!")
+// Smithy has no inline definitions: a shape is synthesized for a field with one, and other constraints are traits of the member.
+func memberFromField(model *sadl.Model, ns string, shapes *smithylib.Shapes, prefix string, name string, ts *sadl.TypeSpec, comment string, annos map[string]string) (*smithylib.Member, error) {
+	member := &smithylib.Member{
+		Target: typeReference(ns, ts),
 	}
-	ltype := "list"
-	if getAnnotation(fd.Annotations, "x_unique") == "true" {
-		ltype = "set"
-	}
-	shape := smithylib.Shape{
-		Type: ltype,
-	}
-	shape.Member = &smithylib.Member{
-		Target: typeReferenceByName(ns, fd.Items),
-	}
-	ensureShapeTraits(&shape).Put("smithy.api#documentation", "[autogenerated for field '"+fd.Name+"' in struct '"+prefix+"']")
-	shapes.Put(ns+"#"+ftype, &shape)
-	return ftype
-}
-
-func mapTypeReference(model *sadl.Model, ns string, shapes *smithylib.Shapes, prefix string, fd *sadl.StructFieldDef) string {
-	ftype := capitalize(prefix) + capitalize(fd.Name)
-	td := model.FindType(ftype)
-	if td != nil {
-		fmt.Printf("Inline defs not allowed, synthesize %q to refer to: %s\n", ftype, sadl.Pretty(fd))
-		panic("Already have one with that name!!!")
-	}
-	shape := smithylib.Shape{
-		Type: "map",
+	switch ts.Type {
+	case "Array", "Map", "Enum", "Union", "UnitValue":
+		member.Target = ""
+	case "Struct":
+		if len(ts.Fields) > 0 {
+			member.Target = ""
+		}
+	case "String":
+		if len(ts.Values) > 0 {
+			member.Target = ""
+		}
 	}
-	shape.Key = &smithylib.Member{
-		Target: typeReferenceByName(ns, fd.Keys),
+	if member.Target == "" {
+		ftype := capitalize(prefix) + capitalize(name)
+		doc := "[autogenerated for field '" + name + "' in struct '" + prefix + "']"
+		if err := defineShapeFromTypeSpec(model, ns, shapes, ts, ftype, doc, annos); err != nil {
+			return nil, err
+		}
+		member.Target = ns + "#" + ftype
+	} else {
+		if l := lengthTrait(ts.MinSize, ts.MaxSize); l != nil {
+			ensureMemberTraits(member).Put("smithy.api#length", l)
+		}
+		if ts.Pattern != "" {
+			ensureMemberTraits(member).Put("smithy.api#pattern", ts.Pattern)
+		}
+		if r := rangeTrait(ts.Min, ts.Max); r != nil {
+			ensureMemberTraits(member).Put("smithy.api#range", r)
+		}
 	}
-	shape.Value = &smithylib.Member{
-		Target: typeReferenceByName(ns, fd.Items),
+	if comment != "" {
+		ensureMemberTraits(member).Put("smithy.api#documentation", comment)
 	}
-	ensureShapeTraits(&shape).Put("smithy.api#documentation", "[autogenerated for field '"+fd.Name+"' in struct '"+prefix+"']")
-	shapes.Put(ns+"#"+ftype, &shape)
-	return ftype
+	return member, nil
 }
 
-func enumTypeReference(model *sadl.Model, ns string, shapes *smithylib.Shapes, prefix string, fd *sadl.StructFieldDef) string {
-	ftype := capitalize(prefix) + capitalize(fd.Name)
-	td := model.FindType(ftype)
-	if td != nil {
-		fmt.Printf("Inline defs not allowed, synthesize %q to refer to: %s\n", ftype, sadl.Pretty(fd))
-		panic("Already have one with that name!!!")
-	}
-	ltype := "string"
-	shape := smithylib.Shape{
-		Type: ltype,
-	}
-	shape.Member = &smithylib.Member{
-		Target: typeReferenceByName(ns, fd.Items),
+func putShape(shapes *smithylib.Shapes, id string, shape *smithylib.Shape) error {
+	if shapes.Get(id) != nil {
+		return fmt.Errorf("More than one Smithy shape would be named %q", id)
 	}
-	ensureShapeTraits(&shape).Put("smithy.api#enum", enumTrait(&fd.TypeSpec))
-	ensureShapeTraits(&shape).Put("smithy.api#documentation", "[autogenerated for field '"+fd.Name+"' in struct '"+prefix+"']")
-	shapes.Put(ns+"#"+ftype, &shape)
-	return ftype
+	shapes.Put(id, shape)
+	return nil
 }
 
 func capitalize(s string) string {
@@ -502,6 +488,7 @@ func ensureMemberTraits(member *smithylib.Member) *data.Object {
 
 func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Shapes, ts *sadl.TypeSpec, name string, comment string, annos map[string]string) error {
 	var shape smithylib.Shape
+	var err error
 	switch ts.Type {
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
 		shape = shapeFromNumber(ts)
@@ -510,7 +497,7 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 	case "Enum":
 		shape = shapeFromEnum(ts)
 	case "Struct":
-		shape = shapeFromStruct(model, ns, shapes, name, ts)
+		shape, err = shapeFromStruct(model, ns, shapes, name, ts)
 	case "Array":
 		shape = shapeFromArray(model, ns, shapes, name, ts, annos)
 	case "Union":
@@ -523,6 +510,9 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 		fmt.Println("So far:", sadl.Pretty(model))
 		panic("handle this type:" + sadl.Pretty(ts))
 	}
+	if err != nil {
+		return err
+	}
 	if comment != "" {
 		ensureShapeTraits(&shape).Put("smithy.api#documentation", comment)
 	}
@@ -548,8 +538,7 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 			}
 		}
 	}
-	shapes.Put(ns+"#"+name, &shape)
-	return nil
+	return putShape(shapes, ns+"#"+name, &shape)
 }
 
 func shapeFromArray(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec, annos map[string]string) smithylib.Shape {
@@ -590,23 +579,15 @@ func shapeFromMap(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname
 	return shape
 }
 
-func shapeFromStruct(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) smithylib.Shape {
+func shapeFromStruct(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) (smithylib.Shape, error) {
 	shape := smithylib.Shape{
 		Type: "structure",
 	}
 	members := smithylib.NewMembers()
 	for _, fd := range ts.Fields {
-		ftype := typeReference(ns, &fd.TypeSpec)
-		switch ftype {
-		case "List":
-			ftype = listTypeReference(model, ns, shapes, tname, fd)
-		case "Map":
-			ftype = mapTypeReference(model, ns, shapes, tname, fd)
-		case "Enum":
-			ftype = enumTypeReference(model, ns, shapes, tname, fd)
-		}
-		member := &smithylib.Member{
-			Target: ftype,
+		member, err := memberFromField(model, ns, shapes, tname, fd.Name, &fd.TypeSpec, fd.Comment, fd.Annotations)
+		if err != nil {
+			return shape, err
 		}
 		if fd.Required {
 			ensureMemberTraits(member).Put("smithy.api#required", true)
@@ -614,7 +595,7 @@ func shapeFromStruct(model *sadl.Model, ns string, shapes *smithylib.Shapes, tna
 		members.Put(fd.Name, member)
 	}
 	shape.Members = members
-	return shape
+	return shape, nil
 }
 
 func shapeFromUnion(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) smithylib.Shape {
-- 
2.43.0


From 32f62f89ceb97b5e6d20edb03309033860eb7fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:43 +0000
Subject: [PATCH 125/173] fix: Smithy export crashed on Bool, Bytes, Timestamp,
 Any and UnitValue types, and lost the size of maps and the comments of enum
 elements

---
 smithy/export_smithy.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 62aa97c..dbe9238 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -397,7 +397,7 @@ func typeReferenceByName(ns string, name string) string {
 		return "smithy.api#List"
 	case "Map":
 		return "smithy.api#Map"
-	case "Struct":
+	case "Struct", "Any":
 		return "smithy.api#Document" //naked struct only.
 	default:
 		return ns + "#" + name
@@ -506,9 +506,19 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 		shape = shapeFromMap(model, ns, shapes, name, ts)
 	case "UUID":
 		shape = *uuidShape()
+	case "Bool":
+		shape.Type = "boolean"
+	case "Timestamp":
+		shape.Type = "timestamp"
+	case "Any":
+		shape.Type = "document"
+	case "Bytes":
+		shape.Type = "blob"
+		if l := lengthTrait(ts.MinSize, ts.MaxSize); l != nil {
+			ensureShapeTraits(&shape).Put("smithy.api#length", l)
+		}
 	default:
-		fmt.Println("So far:", sadl.Pretty(model))
-		panic("handle this type:" + sadl.Pretty(ts))
+		return fmt.Errorf("Type not supported by Smithy: %s is a %s", name, ts.Type)
 	}
 	if err != nil {
 		return err
@@ -572,10 +582,9 @@ func shapeFromMap(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname
 		Key:   &key,
 		Value: &value,
 	}
-	//	l := lengthTrait(ts.MinSize, ts.MaxSize)
-	//	if l != nil {
-	//		ensureShapeTraits(&shape)["smithy.api#length"] = l
-	//	}
+	if l := lengthTrait(ts.MinSize, ts.MaxSize); l != nil {
+		ensureShapeTraits(&shape).Put("smithy.api#length", l)
+	}
 	return shape
 }
 
@@ -679,6 +688,9 @@ func shapeFromEnum(ts *sadl.TypeSpec) smithylib.Shape {
 				ensureMemberTraits(mem).Put("smithy.api#enumValue", val)
 			}
 		}
+		if el.Comment != "" {
+			ensureMemberTraits(mem).Put("smithy.api#documentation", el.Comment)
+		}
 		mems.Put(el.Symbol, mem)
 	}
 	shape.Members = mems
-- 
2.43.0


From 6c294fc606257373a7b4fd18720b7cb71a64c426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:43 +0000
Subject: [PATCH 126/173] fix: Smithy export wrote references to nothing for
 union variants of base types

---
 smithy/export_smithy.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index dbe9238..a09cfbc 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -501,7 +501,7 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 	case "Array":
 		shape = shapeFromArray(model, ns, shapes, name, ts, annos)
 	case "Union":
-		shape = shapeFromUnion(model, ns, shapes, name, ts)
+		shape, err = shapeFromUnion(model, ns, shapes, name, ts)
 	case "Map":
 		shape = shapeFromMap(model, ns, shapes, name, ts)
 	case "UUID":
@@ -607,22 +607,20 @@ func shapeFromStruct(model *sadl.Model, ns string, shapes *smithylib.Shapes, tna
 	return shape, nil
 }
 
-func shapeFromUnion(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) smithylib.Shape {
+func shapeFromUnion(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) (smithylib.Shape, error) {
 	shape := smithylib.Shape{
 		Type: "union",
 	}
 	members := smithylib.NewMembers()
 	for _, vd := range ts.Variants { //todo: modify SADL to make unions more like structs
-		//		fd := model.FindType(vtype.Type)
-		//		ftype := typeReference(&fd.TypeSpec)
-		member := &smithylib.Member{
-			Target: EnsureNamespaced(ns, vd.Type),
+		member, err := memberFromField(model, ns, shapes, tname, vd.Name, &vd.TypeSpec, vd.Comment, vd.Annotations)
+		if err != nil {
+			return shape, err
 		}
-		ensureMemberTraits(member).Put("smithy.api#documentation", vd.Comment)
 		members.Put(vd.Name, member)
 	}
 	shape.Members = members
-	return shape
+	return shape, nil
 }
 
 func shapeFromString(ts *sadl.TypeSpec) smithylib.Shape {
-- 
2.43.0


From d01f5668ce810ebce46d7d0ab6cdba327a4245c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:15 +0000
Subject: [PATCH 127/173] fix: Smithy export wrote references to nothing for
 collections of base types without parameters

---
 smithy/export_smithy.go | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index a09cfbc..4da2168 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -499,11 +499,11 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 	case "Struct":
 		shape, err = shapeFromStruct(model, ns, shapes, name, ts)
 	case "Array":
-		shape = shapeFromArray(model, ns, shapes, name, ts, annos)
+		shape, err = shapeFromArray(model, ns, shapes, name, ts, annos)
 	case "Union":
 		shape, err = shapeFromUnion(model, ns, shapes, name, ts)
 	case "Map":
-		shape = shapeFromMap(model, ns, shapes, name, ts)
+		shape, err = shapeFromMap(model, ns, shapes, name, ts)
 	case "UUID":
 		shape = *uuidShape()
 	case "Bool":
@@ -551,9 +551,13 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 	return putShape(shapes, ns+"#"+name, &shape)
 }
 
-func shapeFromArray(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec, annos map[string]string) smithylib.Shape {
+func shapeFromArray(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec, annos map[string]string) (smithylib.Shape, error) {
+	items, err := itemReference(ns, tname, ts.Items, "Any")
+	if err != nil {
+		return smithylib.Shape{}, err
+	}
 	member := smithylib.Member{
-		Target: EnsureNamespaced(ns, typeReferenceByName(ns, ts.Items)),
+		Target: items,
 	}
 	ltype := "list"
 	if getAnnotation(annos, "x_unique") == "true" {
@@ -567,15 +571,34 @@ func shapeFromArray(model *sadl.Model, ns string, shapes *smithylib.Shapes, tnam
 	if l != nil {
 		ensureShapeTraits(&shape).Put("smithy.api#length", l)
 	}
-	return shape
+	return shape, nil
 }
 
-func shapeFromMap(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) smithylib.Shape {
+// the target for the items or keys of a collection: a base type that needs parameters can only be used by name
+func itemReference(ns string, tname string, name string, defaultName string) (string, error) {
+	switch name {
+	case "":
+		name = defaultName
+	case "Array", "Map", "Enum", "Union", "UnitValue":
+		return "", fmt.Errorf("Item type not supported by Smithy: %s in %s", name, tname)
+	}
+	return typeReferenceByName(ns, name), nil
+}
+
+func shapeFromMap(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) (smithylib.Shape, error) {
+	keys, err := itemReference(ns, tname, ts.Keys, "String")
+	if err != nil {
+		return smithylib.Shape{}, err
+	}
+	items, err := itemReference(ns, tname, ts.Items, "Any")
+	if err != nil {
+		return smithylib.Shape{}, err
+	}
 	key := smithylib.Member{
-		Target: EnsureNamespaced(ns, typeReferenceByName(ns, ts.Keys)),
+		Target: keys,
 	}
 	value := smithylib.Member{
-		Target: EnsureNamespaced(ns, typeReferenceByName(ns, ts.Items)),
+		Target: items,
 	}
 	shape := smithylib.Shape{
 		Type:  "map",
@@ -585,7 +608,7 @@ func shapeFromMap(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname
 	if l := lengthTrait(ts.MinSize, ts.MaxSize); l != nil {
 		ensureShapeTraits(&shape).Put("smithy.api#length", l)
 	}
-	return shape
+	return shape, nil
 }
 
 func shapeFromStruct(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) (smithylib.Shape, error) {
-- 
2.43.0


From 2e0125e80328a2690f6088ab01aafc23c94a3420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:05 +0000
Subject: [PATCH 128/173] fix: Smithy export crashed on actions without
 expected response, lost required, comments and inline types of parameters,
 and the exceptions of operations

---
 smithy/export_smithy.go | 54 ++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 4da2168..0e8af68 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -123,7 +123,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 		shape := smithylib.Shape{
 			Type: "operation",
 		}
-		ensureShapeTraits(&shape).Put("smithy.api#documentation", hd.Comment)
+		if hd.Comment != "" {
+			ensureShapeTraits(&shape).Put("smithy.api#documentation", hd.Comment)
+		}
 		ensureShapeTraits(&shape).Put("smithy.api#http", httpTrait(path, hd.Method, expectedCode))
 		if hd.Annotations != nil {
 			if tags, ok := hd.Annotations["x_tags"]; ok {
@@ -149,12 +151,15 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 			}
 			ensureShapeTraits(&inShape).Put("smithy.api#input", true)
 			for _, in := range hd.Inputs {
-				mem := &smithylib.Member{
-					Target: typeReferenceByName(ns, in.Type),
+				mem, err := memberFromField(model, ns, ast.Shapes, name+inputSuffix, in.Name, &in.TypeSpec, in.Comment, in.Annotations)
+				if err != nil {
+					return nil, err
+				}
+				if in.Path || in.Required {
+					ensureMemberTraits(mem).Put("smithy.api#required", true)
 				}
 				if in.Path {
 					ensureMemberTraits(mem).Put("smithy.api#httpLabel", true)
-					ensureMemberTraits(mem).Put("smithy.api#required", true)
 				} else if in.Query != "" {
 					ensureMemberTraits(mem).Put("smithy.api#httpQuery", in.Query)
 				} else if in.Header != "" {
@@ -167,7 +172,7 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 			ast.Shapes.Put(shape.Input.Target, &inShape)
 		}
 
-		if len(hd.Expected.Outputs) > 0 {
+		if hd.Expected != nil && len(hd.Expected.Outputs) > 0 {
 			//if we have any outputs, define this
 			shape.Output = &smithylib.ShapeRef{Target: prefix + name + outputSuffix}
 			outShape := smithylib.Shape{
@@ -176,8 +181,12 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 			}
 			ensureShapeTraits(&outShape).Put("smithy.api#output", true)
 			for _, out := range hd.Expected.Outputs {
-				mem := &smithylib.Member{
-					Target: typeReferenceByName(ns, out.Type),
+				mem, err := memberFromField(model, ns, ast.Shapes, name+outputSuffix, out.Name, &out.TypeSpec, out.Comment, out.Annotations)
+				if err != nil {
+					return nil, err
+				}
+				if out.Required {
+					ensureMemberTraits(mem).Put("smithy.api#required", true)
 				}
 				if out.Header != "" {
 					ensureMemberTraits(mem).Put("smithy.api#httpHeader", out.Header)
@@ -244,8 +253,12 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 			}
 			//		inShape.Documentation = "[autogenerated for operation '" + name + "']"
 			for _, in := range od.Inputs {
-				mem := &smithylib.Member{
-					Target: typeReferenceByName(ns, in.Type),
+				mem, err := memberFromField(model, ns, ast.Shapes, name+inputSuffix, in.Name, &in.TypeSpec, in.Comment, in.Annotations)
+				if err != nil {
+					return nil, err
+				}
+				if in.Required {
+					ensureMemberTraits(mem).Put("smithy.api#required", true)
 				}
 				inShape.Members.Put(in.Name, mem)
 			}
@@ -259,22 +272,29 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 			}
 			//		outShape.Documentation = "[autogenerated for operation '" + name + "']"
 			for _, out := range od.Outputs {
-				mem := &smithylib.Member{
-					Target: typeReferenceByName(ns, out.Type),
+				mem, err := memberFromField(model, ns, ast.Shapes, name+outputSuffix, out.Name, &out.TypeSpec, out.Comment, out.Annotations)
+				if err != nil {
+					return nil, err
 				}
 				outShape.Members.Put(out.Name, mem)
 			}
 			ast.Shapes.Put(shape.Output.Target, &outShape)
 		}
-		if len(od.Exceptions) > 0 {
-			var excs []string
-			for _, exc := range od.Exceptions {
-				excs = append(excs, exc)
+		for _, exc := range od.Exceptions {
+			em := &smithylib.ShapeRef{Target: prefix + exc}
+			tmp := ast.Shapes.Get(em.Target)
+			if tmp == nil || tmp.Type != "structure" {
+				return nil, fmt.Errorf("Cannot find structure shape for error declaration type %q", exc)
 			}
-			//?
+			if !ensureShapeTraits(tmp).Has("smithy.api#error") {
+				tmp.Traits.Put("smithy.api#error", "client")
+			}
+			shape.Errors = append(shape.Errors, em)
 		}
 
-		ensureShapeTraits(&shape).Put("smithy.api#documentation", od.Comment)
+		if od.Comment != "" {
+			ensureShapeTraits(&shape).Put("smithy.api#documentation", od.Comment)
+		}
 		ast.Shapes.Put(prefix+name, &shape)
 		ops = append(ops, &smithylib.ShapeRef{
 			Target: prefix + name,
-- 
2.43.0


From 5dafebcd4e7e24f7bdbdd7ea7a7d8f2b376495c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:06 +0000
Subject: [PATCH 129/173] fix: Smithy export gave exceptions with several or no
 statuses a wrong one, and made payloads of fields that are not structs

---
 smithy/export_smithy.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 0e8af68..1c985da 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -101,6 +101,7 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 		}
 	}
 	var ops []*smithylib.ShapeRef
+	statuses := make(map[string]int32, 0)
 	prefix := ns + "#"
 	for _, hd := range model.Http {
 		expectedCode := 200
@@ -219,14 +220,25 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				//to do: modify the sadl model to support headers in exception responses
 				em := &smithylib.ShapeRef{Target: ns + "#" + e.Type}
 				shape.Errors = append(shape.Errors, em)
-				if tmp := ast.Shapes.Get(em.Target); tmp != nil {
-					ensureShapeTraits(tmp).Put("smithy.api#httpError", e.Status)
-					ensureShapeTraits(tmp).Put("smithy.api#error", httpErrorCategory(e.Status))
+				if tmp := ast.Shapes.Get(em.Target); tmp != nil && tmp.Type == "structure" {
+					//a Smithy error has one status, or the default one for a server error
+					if prev, ok := statuses[e.Type]; ok && prev != e.Status {
+						return nil, fmt.Errorf("Exception %q has more than one status: %d and %d", e.Type, prev, e.Status)
+					}
+					statuses[e.Type] = e.Status
+					if e.Status == 0 {
+						ensureShapeTraits(tmp).Put("smithy.api#error", "server")
+					} else {
+						ensureShapeTraits(tmp).Put("smithy.api#httpError", e.Status)
+						ensureShapeTraits(tmp).Put("smithy.api#error", httpErrorCategory(e.Status))
+					}
 					//check that the shape has a single member that is a struct. If so, mark it as payload
 					if tmp.Members != nil && tmp.Members.Length() == 1 {
 						for _, k := range tmp.Members.Keys() {
 							m := tmp.Members.Get(k)
-							ensureMemberTraits(m).Put("smithy.api#httpPayload", true)
+							if mshape := ast.Shapes.Get(m.Target); mshape != nil && mshape.Type == "structure" {
+								ensureMemberTraits(m).Put("smithy.api#httpPayload", true)
+							}
 						}
 					}
 				} else {
-- 
2.43.0


From d6f3a07f7872a0efffa6855875eedd37e61c51dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:06 +0000
Subject: [PATCH 130/173] fix: Smithy export lost operations and types with the
 name of the service or of another shape

---
 smithy/export_smithy.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 1c985da..8e25b59 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -170,7 +170,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				}
 				inShape.Members.Put(in.Name, mem)
 			}
-			ast.Shapes.Put(shape.Input.Target, &inShape)
+			if err := putShape(ast.Shapes, shape.Input.Target, &inShape); err != nil {
+				return nil, err
+			}
 		}
 
 		if hd.Expected != nil && len(hd.Expected.Outputs) > 0 {
@@ -196,7 +198,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				}
 				outShape.Members.Put(out.Name, mem)
 			}
-			ast.Shapes.Put(shape.Output.Target, &outShape)
+			if err := putShape(ast.Shapes, shape.Output.Target, &outShape); err != nil {
+				return nil, err
+			}
 		}
 
 		//if we have any exceptions, define them
@@ -246,7 +250,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				}
 			}
 		}
-		ast.Shapes.Put(prefix+name, &shape)
+		if err := putShape(ast.Shapes, prefix+name, &shape); err != nil {
+			return nil, err
+		}
 		ops = append(ops, &smithylib.ShapeRef{
 			Target: prefix + name,
 		})
@@ -274,7 +280,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				}
 				inShape.Members.Put(in.Name, mem)
 			}
-			ast.Shapes.Put(shape.Input.Target, &inShape)
+			if err := putShape(ast.Shapes, shape.Input.Target, &inShape); err != nil {
+				return nil, err
+			}
 		}
 		if len(od.Outputs) > 0 {
 			shape.Output = &smithylib.ShapeRef{Target: prefix + name + outputSuffix}
@@ -290,7 +298,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				}
 				outShape.Members.Put(out.Name, mem)
 			}
-			ast.Shapes.Put(shape.Output.Target, &outShape)
+			if err := putShape(ast.Shapes, shape.Output.Target, &outShape); err != nil {
+				return nil, err
+			}
 		}
 		for _, exc := range od.Exceptions {
 			em := &smithylib.ShapeRef{Target: prefix + exc}
@@ -307,7 +317,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 		if od.Comment != "" {
 			ensureShapeTraits(&shape).Put("smithy.api#documentation", od.Comment)
 		}
-		ast.Shapes.Put(prefix+name, &shape)
+		if err := putShape(ast.Shapes, prefix+name, &shape); err != nil {
+			return nil, err
+		}
 		ops = append(ops, &smithylib.ShapeRef{
 			Target: prefix + name,
 		})
@@ -326,7 +338,12 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 			ensureShapeTraits(service).Put("smithy.api#documentation", model.Comment)
 		}
 		serviceName := sadl.Capitalize(model.Name)
-		ast.Shapes.Put(prefix+serviceName, service)
+		if ast.Shapes.Get(prefix+serviceName) != nil {
+			serviceName = model.Name //the name of an operation or type, apart from the first letter
+		}
+		if err := putShape(ast.Shapes, prefix+serviceName, service); err != nil {
+			return nil, err
+		}
 	}
 	if len(model.Examples) > 0 {
 		examplesFromSADL(ns, ast, model)
-- 
2.43.0


From ad6cad67d44a7e2c29782cacc3ad61b1dfe080b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:34 +0000
Subject: [PATCH 131/173] fix: Smithy export wrote examples in random order,
 crashed on some, and misnamed the content of errors

---
 smithy/export_smithy.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 8e25b59..cd5a0d5 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -351,34 +351,37 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 	return ast, nil
 }
 
-func sadlExamplesForAction(model *sadl.Model, hdef *sadl.HttpDef) []map[string]interface{} {
+func sadlExamplesForAction(ns string, model *sadl.Model, hdef *sadl.HttpDef) []map[string]interface{} {
 	opName := sadl.Capitalize(hdef.Name)
 	reqType := opName + "Request"
 	resType := opName + "Response"
 	namedExamples := make(map[string]map[string]interface{}, 0)
+	result := make([]map[string]interface{}, 0)
 	//each named example should be a pair of req/res, or req/exc
 	for _, ex := range model.Examples {
 		if ex.Target == reqType {
 			c := ex.Comment
 			e := make(map[string]interface{}, 0)
-			e["input"] = ex.Example.(map[string]interface{})
+			e["title"] = ex.Name
+			e["input"] = ex.Example
 			if c != "" {
 				e["documentation"] = c
 			}
 			namedExamples[ex.Name] = e
+			result = append(result, e)
 		}
 	}
 	for _, ex := range model.Examples {
 		if ex.Target != reqType {
 			if data, ok := namedExamples[ex.Name]; ok {
 				if ex.Target == resType {
-					data["output"] = ex.Example.(map[string]interface{})
+					data["output"] = ex.Example
 				} else {
 					for _, exc := range hdef.Exceptions {
 						if exc.Type == ex.Target {
 							tmp := make(map[string]interface{}, 0)
-							tmp["error"] = ex.Example.(map[string]interface{})
-							tmp["shapeId"] = ex.Target
+							tmp["content"] = ex.Example
+							tmp["shapeId"] = ns + "#" + ex.Target
 							data["error"] = tmp
 							break
 						}
@@ -387,11 +390,6 @@ func sadlExamplesForAction(model *sadl.Model, hdef *sadl.HttpDef) []map[string]i
 			}
 		}
 	}
-	result := make([]map[string]interface{}, 0)
-	for k, v := range namedExamples {
-		v["title"] = k
-		result = append(result, v)
-	}
 	return result
 }
 
@@ -401,7 +399,7 @@ func examplesFromSADL(ns string, ast *smithylib.AST, model *sadl.Model) {
 		if ns != "" {
 			name = ns + "#" + name
 		}
-		examples := sadlExamplesForAction(model, hact)
+		examples := sadlExamplesForAction(ns, model, hact)
 		shape := ast.Shapes.Get(name)
 		if shape == nil {
 			continue
-- 
2.43.0


From 2653e1c9480aa6f0b5b04a64ad89336078dfa623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:34 +0000
Subject: [PATCH 132/173] fix: Smithy names of inputs and outputs depended on
 earlier exports, and imported examples had no valid target

---
 smithy/export_smithy.go | 11 ++++++-----
 smithy/import_smithy.go |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index cd5a0d5..a61a42c 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -9,10 +9,8 @@ import (
 	smithylib "github.com/boynton/smithy"
 )
 
-var inputSuffix = "Request"
-var outputSuffix = "Response"
-
 func Export(model *sadl.Model, out string, conf *sadl.Data, exportAst bool) error {
+	inputSuffix, outputSuffix := "Request", "Response"
 	if conf.GetBool("useInputOutput") {
 		inputSuffix = "Input"
 		outputSuffix = "Output"
@@ -25,7 +23,7 @@ func Export(model *sadl.Model, out string, conf *sadl.Data, exportAst bool) erro
 	if ns == "" {
 		ns = "example"
 	}
-	ast, err := FromSADL(model, ns)
+	ast, err := fromSADL(model, ns, inputSuffix, outputSuffix)
 	if err != nil {
 		return fmt.Errorf("sadl2smithy: Cannot convert SADL to Smithy: %v\n", err)
 	}
@@ -83,6 +81,10 @@ func noteTypeRefs(refs map[string]bool, model *sadl.Model, ts *sadl.TypeSpec) {
 }
 
 func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
+	return fromSADL(model, ns, "Request", "Response")
+}
+
+func fromSADL(model *sadl.Model, ns string, inputSuffix string, outputSuffix string) (*smithylib.AST, error) {
 	ast := &smithylib.AST{
 		Smithy:   "2",
 		Metadata: data.NewObject(),
@@ -119,7 +121,6 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 		name := capitalize(hd.Name)
 		if name == "" {
 			name = capitalize(strings.ToLower(hd.Method)) + "Something" //fix!
-			fmt.Println("FIX:", name)
 		}
 		shape := smithylib.Shape{
 			Type: "operation",
diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 64d5318..39e073c 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -726,8 +726,8 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 		outShapeName = shape.Output.Target
 		outType = i.shapeRefToTypeRef(outShapeName)
 	}
-	reqType := sadl.Capitalize(shapeName) + inputSuffix
-	resType := sadl.Capitalize(shapeName) + outputSuffix
+	reqType := sadl.Capitalize(stripNamespace(shapeName)) + "Request"
+	resType := sadl.Capitalize(stripNamespace(shapeName)) + "Response"
 	if opexes := shape.Traits.GetArray("smithy.api#examples"); opexes != nil {
 		for _, opexr := range opexes {
 			if opex, ok := opexr.(map[string]interface{}); ok {
-- 
2.43.0


From 7ea84462a1df0f3d382433fc399ad7cae063edd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:56 +0000
Subject: [PATCH 133/173] fix: Smithy export wrote traits in random order, and
 crashed on or lost pagination and deprecation annotations

---
 smithy/export_smithy.go | 45 ++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index a61a42c..9e80fed 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -574,27 +574,28 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 	if comment != "" {
 		ensureShapeTraits(&shape).Put("smithy.api#documentation", comment)
 	}
-	if annos != nil {
-		for k, v := range annos {
-			switch k {
-			case "x_tags":
-				ensureShapeTraits(&shape).Put("smithy.api#tags", strings.Split(v, ","))
-			case "x_sensitive":
-				ensureShapeTraits(&shape).Put("smithy.api#sensitive", true)
-			case "x_deprecated":
-				dep := make(map[string]interface{}, 0)
-				if v != "" {
-					n := strings.Index(v, "|")
-					if n >= 0 {
-						dep["since"] = v[:n]
-						dep["message"] = v[n+1:]
-					} else {
-						dep["message"] = v
-					}
-					ensureShapeTraits(&shape).Put("smithy.api#deprecated", dep)
-				}
+	if v, ok := annos["x_tags"]; ok {
+		ensureShapeTraits(&shape).Put("smithy.api#tags", strings.Split(v, ","))
+	}
+	if _, ok := annos["x_sensitive"]; ok {
+		ensureShapeTraits(&shape).Put("smithy.api#sensitive", true)
+	}
+	if v, ok := annos["x_deprecated"]; ok {
+		dep := make(map[string]interface{}, 0)
+		if v == "" || v == "true" { //as imported from Smithy
+			if s := annos["x_deprecated_since"]; s != "" {
+				dep["since"] = s
+			}
+			if s := annos["x_deprecated_message"]; s != "" {
+				dep["message"] = s
 			}
+		} else if n := strings.Index(v, "|"); n >= 0 {
+			dep["since"] = v[:n]
+			dep["message"] = v[n+1:]
+		} else {
+			dep["message"] = v
 		}
+		ensureShapeTraits(&shape).Put("smithy.api#deprecated", dep)
 	}
 	return putShape(shapes, ns+"#"+name, &shape)
 }
@@ -793,8 +794,10 @@ func paginatedTrait(sval string) map[string]interface{} {
 	lst := strings.Split(sval, ",")
 	m := make(map[string]interface{}, 0)
 	for _, item := range lst {
-		kv := strings.Split(item, "=")
-		m[kv[0]] = kv[1]
+		kv := strings.SplitN(item, "=", 2)
+		if len(kv) == 2 && kv[1] != "" {
+			m[kv[0]] = kv[1]
+		}
 	}
 	return m
 }
-- 
2.43.0


From aa9d07139df799a57e4a722ca9ecd3c05071913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:19 +0000
Subject: [PATCH 134/173] fix: Smithy import crashed on traits defined in the
 model, and wrote its warnings into the converted output

---
 smithy/import_smithy.go | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 39e073c..4c5989d 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -286,7 +286,6 @@ func (i *Importer) importNumericShape(smithyType string, shapeName string, shape
 func (i *Importer) importStringShape(shapeName string, shape *smithylib.Shape) {
 	sadlName := stripNamespace(shapeName)
 	if sadlName == "UUID" {
-		fmt.Println("UUID shape name:", shapeName)
 		//UUID is already a builtin SADL type
 		return
 	}
@@ -475,28 +474,13 @@ func (i *Importer) importTraitsAsAnnotations(annos map[string]string, traits *da
 			//ignore
 		case "smithy.api#examples":
 			//ignore for now
+		case "smithy.api#pattern", "smithy.api#enum", "smithy.api#input", "smithy.api#output", "smithy.api#internal":
+			/* ignore, handled elsewhere or implicit */
 		default:
-			tshape := i.ast.GetShape(k)
-			if tshape != nil {
-				tm := tshape.Traits.GetMap("smithy.api#trait")
-				if tm != nil {
-					fmt.Println("tshape:", k, tm)
-					//FIX ME
-					//I don't really have a place to put non-string annotations (note how I stuff string annos into "x_name").
-					//So I really need arbitrary annotations values to do this. Note also: need multiple ns support!
-				} else {
-					fmt.Println("Unhandled trait:", k, " =", sadl.Pretty(v))
-					panic("here: " + k)
-				}
-			} else {
-				if strings.HasPrefix(k, "smithy.api#") {
-					if k == "smithy.api#internal" {
-						//ignore
-					} else {
-						fmt.Println("Unhandled trait:", k, " =", sadl.Pretty(v))
-						//panic("here: " + k)
-					}
-				} //else ignore
+			//I don't really have a place to put non-string annotations (note how I stuff string annos into "x_name").
+			//So I really need arbitrary annotations values to do this. Note also: need multiple ns support!
+			if strings.HasPrefix(k, "smithy.api#") {
+				fmt.Fprintln(os.Stderr, "Unhandled trait:", k, " =", sadl.Pretty(v))
 			}
 		}
 	}
-- 
2.43.0


From 28d4a896eb278c732bf8fe8c4804980a1f07f217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:48 +0000
Subject: [PATCH 135/173] fix: Smithy import lost the limits of numbers and
 collections, zero sizes and annotations, and turned booleans into an
 undefined type

---
 smithy/import_smithy.go | 105 +++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 55 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 4c5989d..6c98d3f 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -242,6 +242,38 @@ func escapeComment(doc string) string {
 	return strings.Join(lines, "\n")
 }
 
+// a number in a trait: from the AST or from the IDL
+func importNumber(v interface{}) *sadl.Decimal {
+	switch n := v.(type) {
+	case float64:
+		return sadl.NewDecimal(n)
+	case *data.Decimal:
+		if d, err := sadl.ParseDecimal(n.String()); err == nil {
+			return d
+		}
+	case data.Decimal:
+		return importNumber(&n)
+	}
+	return sadl.AsDecimal(v)
+}
+
+func importRange(traits *data.Object) (*sadl.Decimal, *sadl.Decimal) {
+	l := traits.GetMap("smithy.api#range")
+	return importNumber(l["min"]), importNumber(l["max"])
+}
+
+func importLength(traits *data.Object) (*int64, *int64) {
+	l := traits.GetMap("smithy.api#length")
+	size := func(key string) *int64 {
+		if d := importNumber(l[key]); d != nil {
+			n := d.AsInt64()
+			return &n
+		}
+		return nil
+	}
+	return size("min"), size("max")
+}
+
 func (i *Importer) importNumericShape(smithyType string, shapeName string, shape *smithylib.Shape) {
 	sadlName := stripNamespace(shapeName)
 	td := &sadl.TypeDef{
@@ -270,16 +302,7 @@ func (i *Importer) importNumericShape(smithyType string, shapeName string, shape
 	default:
 		panic("whoops")
 	}
-	if l := shape.Traits.GetMap("smithy.api#range"); l != nil {
-		tmp := sadl.GetDecimal(l, "min")
-		if tmp != nil {
-			td.Min = tmp
-		}
-		tmp = sadl.GetDecimal(l, "max")
-		if tmp != nil {
-			td.Max = tmp
-		}
-	}
+	td.Min, td.Max = importRange(shape.Traits)
 	i.schema.Types = append(i.schema.Types, td)
 }
 
@@ -293,8 +316,9 @@ func (i *Importer) importStringShape(shapeName string, shape *smithylib.Shape) {
 		return
 	}
 	td := &sadl.TypeDef{
-		Name:    sadlName,
-		Comment: escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Name:        sadlName,
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
 	pat := shape.Traits.GetString("smithy.api#pattern")
 	if pat == "([a-f0-9]{8}(-[a-f0-9]{4}){4}[a-f0-9]{8})" {
@@ -302,16 +326,7 @@ func (i *Importer) importStringShape(shapeName string, shape *smithylib.Shape) {
 	} else {
 		td.Type = "String"
 		td.Pattern = pat
-		if l := shape.Traits.GetMap("smithy.api#length"); l != nil {
-			tmp := sadl.GetInt64(l, "min")
-			if tmp != 0 {
-				td.MinSize = &tmp
-			}
-			tmp = sadl.GetInt64(l, "max")
-			if tmp != 0 {
-				td.MaxSize = &tmp
-			}
-		}
+		td.MinSize, td.MaxSize = importLength(shape.Traits)
 		lst := shape.Traits.GetArray("smithy.api#enum")
 		if lst != nil {
 			var values []string
@@ -401,20 +416,12 @@ func (i *Importer) importTimestampShape(shapeName string, shape *smithylib.Shape
 func (i *Importer) importBlobShape(shapeName string, shape *smithylib.Shape) {
 	sadlName := stripNamespace(shapeName)
 	td := &sadl.TypeDef{
-		Name:    sadlName,
-		Comment: escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Name:        sadlName,
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
 	td.Type = "Bytes"
-	if l := shape.Traits.GetMap("smithy.api#length"); l != nil {
-		tmp := sadl.GetInt64(l, "min")
-		if tmp != 0 {
-			td.MinSize = &tmp
-		}
-		tmp = sadl.GetInt64(l, "max")
-		if tmp != 0 {
-			td.MaxSize = &tmp
-		}
-	}
+	td.MinSize, td.MaxSize = importLength(shape.Traits)
 	i.schema.Types = append(i.schema.Types, td)
 }
 
@@ -425,7 +432,7 @@ func (i *Importer) importBooleanShape(shapeName string, shape *smithylib.Shape)
 		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
 		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
-	td.Type = "Boolean"
+	td.Type = "Bool"
 	i.schema.Types = append(i.schema.Types, td)
 }
 
@@ -592,19 +599,13 @@ func (i *Importer) importStructureShape(shapeName string, shape *smithylib.Shape
 func (i *Importer) importListShape(shapeName string, shape *smithylib.Shape, unique bool) {
 	sadlName := stripNamespace(shapeName)
 	td := &sadl.TypeDef{
-		Name:    sadlName,
-		Comment: escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Name:        sadlName,
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
 	td.Type = "Array"
 	td.Items = i.shapeRefToTypeRef(shape.Member.Target)
-	tmp := shape.Traits.GetInt64("smithy.api#min")
-	if tmp != 0 {
-		td.MinSize = &tmp
-	}
-	tmp = shape.Traits.GetInt64("smithy.api#max")
-	if tmp != 0 {
-		td.MaxSize = &tmp
-	}
+	td.MinSize, td.MaxSize = importLength(shape.Traits)
 	if unique {
 		td.Annotations = WithAnnotation(td.Annotations, "x_unique", "true")
 	}
@@ -614,20 +615,14 @@ func (i *Importer) importListShape(shapeName string, shape *smithylib.Shape, uni
 func (i *Importer) importMapShape(shapeName string, shape *smithylib.Shape) {
 	sadlName := stripNamespace(shapeName)
 	td := &sadl.TypeDef{
-		Name:    sadlName,
-		Comment: escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Name:        sadlName,
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
 	td.Type = "Map"
 	td.Keys = i.shapeRefToTypeRef(shape.Key.Target)
 	td.Items = i.shapeRefToTypeRef(shape.Value.Target)
-	tmp := shape.Traits.GetInt64("smithy.api#min")
-	if tmp != 0 {
-		td.MinSize = &tmp
-	}
-	tmp = shape.Traits.GetInt64("smithy.api#max")
-	if tmp != 0 {
-		td.MaxSize = &tmp
-	}
+	td.MinSize, td.MaxSize = importLength(shape.Traits)
 	i.schema.Types = append(i.schema.Types, td)
 }
 
-- 
2.43.0


From f08d3cf9c9a593ab0bf3ffb7ac715f900d03405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:42 +0000
Subject: [PATCH 136/173] fix: limits such as 0.1 read from OpenAPI documents
 excluded the number itself (NewDecimal took the nearest binary fraction)

---
 decimal.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/decimal.go b/decimal.go
index 39db9b2..705b68c 100644
--- a/decimal.go
+++ b/decimal.go
@@ -3,7 +3,9 @@ package sadl
 
 import (
 	"fmt"
+	"math"
 	"math/big"
+	"strconv"
 )
 
 // we establish this "reasonable" max precision
@@ -37,7 +39,13 @@ func ParseDecimal(text string) (*Decimal, error) {
 	return &Decimal{Float: *num}, nil
 }
 
+// the decimal number that val is written as: 0.1, rather than the binary fraction nearest to it
 func NewDecimal(val float64) *Decimal {
+	if val != math.Trunc(val) || math.Abs(val) > 1<<63 {
+		if d, err := ParseDecimal(strconv.FormatFloat(val, 'g', -1, 64)); err == nil {
+			return d
+		}
+	}
 	return &Decimal{Float: *big.NewFloat(val)}
 }
 
@@ -85,7 +93,8 @@ func DecimalValue(val *Decimal, defval interface{}) *Decimal {
 		case int8:
 			return NewDecimal(float64(n))
 		case float32:
-			return NewDecimal(float64(n))
+			d, _ := ParseDecimal(fmt.Sprint(n))
+			return d
 		case float64:
 			return NewDecimal(n)
 		}
-- 
2.43.0


From 20a1c7aef1f7010213522e0ddd1b6f1044e26d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:33 +0000
Subject: [PATCH 137/173] fix: Smithy names of actions and inline types that
 start with a letter beyond ASCII were damaged

---
 smithy/export_smithy.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 9e80fed..ca3aa9d 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -514,10 +514,7 @@ func putShape(shapes *smithylib.Shapes, id string, shape *smithylib.Shape) error
 }
 
 func capitalize(s string) string {
-	if s == "" {
-		return s
-	}
-	return strings.ToUpper(s[0:1]) + s[1:]
+	return sadl.Capitalize(s)
 }
 
 func ensureShapeTraits(shape *smithylib.Shape) *data.Object {
-- 
2.43.0


From 3203149dbf0a1eb984f95efadfafea9d602323b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:03 +0000
Subject: [PATCH 138/173] fix: Smithy import crashed on shapes it does not
 know, on missing definitions and on references to nothing, and left
 references to undefined types

---
 smithy/import_smithy.go | 127 +++++++++++++++++++++++++++++++---------
 1 file changed, 99 insertions(+), 28 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 6c98d3f..f45f01b 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -96,6 +96,14 @@ type Importer struct {
 	ast       *smithylib.AST
 	ioParams  map[string]*smithylib.Shape
 	schema    *sadl.Schema
+	err       error
+}
+
+// the first thing in the model that cannot be imported
+func (i *Importer) fail(format string, args ...interface{}) {
+	if i.err == nil {
+		i.err = fmt.Errorf(format, args...)
+	}
 }
 
 func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
@@ -155,6 +163,9 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 	serviceVersion := ""
 	for _, shapeName := range ast.Shapes.Keys() {
 		shapeDef := ast.Shapes.Get(shapeName)
+		if shapeDef == nil {
+			return nil, fmt.Errorf("Not a shape: %s", shapeName)
+		}
 		if shapeDef.Type == "service" {
 			if service != "" {
 				if shapeName != service {
@@ -188,6 +199,9 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 			i.importShape(k, v)
 		}
 	}
+	if i.err != nil {
+		return nil, i.err
+	}
 	return sadl.NewModel(schema)
 }
 
@@ -218,6 +232,8 @@ func (i *Importer) importShape(shapeName string, shapeDef *smithylib.Shape) {
 		i.importBlobShape(shapeName, shapeDef)
 	case "enum":
 		i.importEnumShape(shapeName, shapeDef)
+	case "document":
+		i.importDocumentShape(shapeName, shapeDef)
 	case "service":
 		//FIX schema.Name = shapeName
 	case "operation":
@@ -225,8 +241,7 @@ func (i *Importer) importShape(shapeName string, shapeDef *smithylib.Shape) {
 	case "resource":
 		i.importResourceShape(shapeName, shapeDef)
 	default:
-		fmt.Println("fix me, unhandled shape type: " + shapeDef.Type)
-		panic("whoa")
+		i.fail("Unsupported shape type %q: %s", shapeDef.Type, shapeName)
 	}
 }
 
@@ -436,6 +451,25 @@ func (i *Importer) importBooleanShape(shapeName string, shape *smithylib.Shape)
 	i.schema.Types = append(i.schema.Types, td)
 }
 
+func (i *Importer) importDocumentShape(shapeName string, shape *smithylib.Shape) {
+	td := &sadl.TypeDef{
+		Name:        stripNamespace(shapeName),
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
+	}
+	td.Type = "Struct"
+	i.schema.Types = append(i.schema.Types, td)
+}
+
+// the member with the given name, or an empty one if there is none
+func (i *Importer) member(shapeName string, memberName string, member *smithylib.Member) *smithylib.Member {
+	if member == nil {
+		i.fail("Missing definition of %s in %s", memberName, shapeName)
+		return &smithylib.Member{}
+	}
+	return member
+}
+
 func (i *Importer) importTraitsAsAnnotations(annos map[string]string, traits *data.Object) map[string]string {
 	for _, k := range traits.Keys() {
 		v := traits.Get(k)
@@ -505,7 +539,7 @@ func (i *Importer) importEnumShape(shapeName string, shape *smithylib.Shape) {
 	//	prefix := model.namespace + "#"
 	var elements []*sadl.EnumElementDef
 	for _, memberName := range shape.Members.Keys() {
-		member := shape.Members.Get(memberName)
+		member := i.member(shapeName, memberName, shape.Members.Get(memberName))
 		ee := &sadl.EnumElementDef{
 			Symbol:      memberName,
 			Comment:     escapeComment(member.Traits.GetString("smithy.api#documentation")),
@@ -528,7 +562,7 @@ func (i *Importer) importUnionShape(shapeName string, shape *smithylib.Shape) {
 	td.Type = "Union"
 	//	prefix := model.namespace + "#"
 	for _, memberName := range shape.Members.Keys() {
-		member := shape.Members.Get(memberName)
+		member := i.member(shapeName, memberName, shape.Members.Get(memberName))
 		//		if memberName != member.Target {
 		vd := &sadl.UnionVariantDef{
 			Name:        memberName,
@@ -579,7 +613,7 @@ func (i *Importer) importStructureShape(shapeName string, shape *smithylib.Shape
 	td.Type = "Struct"
 	var fields []*sadl.StructFieldDef
 	for _, memberName := range shape.Members.Keys() {
-		member := shape.Members.Get(memberName)
+		member := i.member(shapeName, memberName, shape.Members.Get(memberName))
 		fd := &sadl.StructFieldDef{
 			Name:        memberName,
 			Comment:     escapeComment(member.Traits.GetString("smithy.api#documentation")),
@@ -604,7 +638,7 @@ func (i *Importer) importListShape(shapeName string, shape *smithylib.Shape, uni
 		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
 	td.Type = "Array"
-	td.Items = i.shapeRefToTypeRef(shape.Member.Target)
+	td.Items = i.shapeRefToTypeRef(i.member(shapeName, "member", shape.Member).Target)
 	td.MinSize, td.MaxSize = importLength(shape.Traits)
 	if unique {
 		td.Annotations = WithAnnotation(td.Annotations, "x_unique", "true")
@@ -620,8 +654,8 @@ func (i *Importer) importMapShape(shapeName string, shape *smithylib.Shape) {
 		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
 	td.Type = "Map"
-	td.Keys = i.shapeRefToTypeRef(shape.Key.Target)
-	td.Items = i.shapeRefToTypeRef(shape.Value.Target)
+	td.Keys = i.shapeRefToTypeRef(i.member(shapeName, "key", shape.Key).Target)
+	td.Items = i.shapeRefToTypeRef(i.member(shapeName, "value", shape.Value).Target)
 	td.MinSize, td.MaxSize = importLength(shape.Traits)
 	i.schema.Types = append(i.schema.Types, td)
 }
@@ -664,9 +698,29 @@ func (i *Importer) shapeRefToTypeRef(shapeRef string) string {
 		return "Decimal"
 	case "smithy.api#Timestamp", "Timestamp":
 		return "Timestamp"
-	case "smithy.api#Document", "Document":
+	case "smithy.api#Document", "Document", "smithy.api#Unit":
 		return "Struct" //todo: introduce a separate type for open structs.
+	case "smithy.api#PrimitiveBoolean":
+		return "Bool"
+	case "smithy.api#PrimitiveByte":
+		return "Int8"
+	case "smithy.api#PrimitiveShort":
+		return "Int16"
+	case "smithy.api#PrimitiveInteger":
+		return "Int32"
+	case "smithy.api#PrimitiveLong":
+		return "Int64"
+	case "smithy.api#PrimitiveFloat":
+		return "Float32"
+	case "smithy.api#PrimitiveDouble":
+		return "Float64"
 	default:
+		shape := i.ast.GetShape(typeRef)
+		if shape == nil {
+			i.fail("No such shape: %q", typeRef)
+		} else if shape.Type == "service" || shape.Type == "operation" || shape.Type == "resource" {
+			i.fail("Not a data shape: %q", typeRef)
+		}
 		if true {
 			typeRef = stripNamespace(typeRef)
 		} else {
@@ -685,13 +739,24 @@ func (i *Importer) importResourceShape(shapeName string, shape *smithylib.Shape)
 	//to do: preserve the resource info as tags on the operations
 }
 
+// the structure for the input, output or an error of an operation: without members if there is none
+func (i *Importer) structure(shapeName string) *smithylib.Shape {
+	if shape := i.ast.GetShape(shapeName); shape != nil && shape.Type == "structure" {
+		return shape
+	}
+	if shapeName != "smithy.api#Unit" {
+		i.fail("No such structure: %s", shapeName)
+	}
+	return &smithylib.Shape{Type: "structure"}
+}
+
 func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape) {
 	var method, uri string
 	var code int
-	if ht := shape.Traits.GetObject("smithy.api#http"); ht != nil {
-		method = ht.GetString("method")
-		uri = ht.GetString("uri")
-		code = ht.GetInt("code")
+	if ht := shape.Traits.GetMap("smithy.api#http"); ht != nil {
+		method = data.GetString(ht, "method")
+		uri = data.GetString(ht, "uri")
+		code = data.GetInt(ht, "code")
 	}
 	var inType string
 	var inShapeName string
@@ -740,10 +805,10 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 			Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 		}
 		if shape.Input != nil {
-			inStruct := i.ast.GetShape(inShapeName)
+			inStruct := i.structure(inShapeName)
 			var inputs []*sadl.OperationInput
 			for _, fname := range inStruct.Members.Keys() {
-				fval := inStruct.Members.Get(fname)
+				fval := i.member(inShapeName, fname, inStruct.Members.Get(fname))
 				in := &sadl.OperationInput{}
 				in.Name = fname
 				in.Type = i.shapeRefToTypeRef(fval.Target)
@@ -753,11 +818,11 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 			odef.Inputs = inputs
 		}
 		if shape.Output != nil {
-			outStruct := i.ast.GetShape(outShapeName)
+			outStruct := i.structure(outShapeName)
 			var outputs []*sadl.OperationOutput
 			for _, fname := range outStruct.Members.Keys() {
 				out := &sadl.OperationOutput{}
-				fval := outStruct.Members.Get(fname)
+				fval := i.member(outShapeName, fname, outStruct.Members.Get(fname))
 				out.Name = fname
 				out.Type = i.shapeRefToTypeRef(fval.Target)
 				outputs = append(outputs, out)
@@ -767,6 +832,11 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 		if shape.Errors != nil {
 			//fix me
 			for _, err := range shape.Errors {
+				if err == nil {
+					i.fail("Not an error: null in %s", shapeName)
+					continue
+				}
+				i.structure(err.Target)
 				odef.Exceptions = append(odef.Exceptions, i.shapeRefToTypeRef(err.Target))
 			}
 		}
@@ -785,14 +855,14 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 		code = 200
 	}
 	if shape.Input != nil && inShapeName != "smithy.api#Unit" {
-		inStruct := i.ast.GetShape(inShapeName)
+		inStruct := i.structure(inShapeName)
 		qs := ""
 		payloadMember := ""
 		hasLabel := false
 		hasQuery := false
 		if inStruct != nil {
 			for _, fname := range inStruct.Members.Keys() {
-				fval := inStruct.Members.Get(fname)
+				fval := i.member(inShapeName, fname, inStruct.Members.Get(fname))
 				if fval.Traits.GetBool("smithy.api#httpPayload") {
 					payloadMember = fname
 				} else if fval.Traits.GetBool("smithy.api#httpLabel") {
@@ -804,7 +874,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 			if hasLabel || hasQuery || payloadMember != "" {
 				//the input might *have* a body
 				for _, fname := range inStruct.Members.Keys() {
-					fval := inStruct.Members.Get(fname)
+					fval := i.member(inShapeName, fname, inStruct.Members.Get(fname))
 					in := &sadl.HttpParamSpec{}
 					in.Name = fname
 					in.Type = i.shapeRefToTypeRef(fval.Target)
@@ -839,14 +909,14 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 		Status: int32(code),
 	}
 	if shape.Output != nil && outShapeName != "smithy.api#Unit" {
-		outStruct := i.ast.GetShape(outShapeName)
+		outStruct := i.structure(outShapeName)
 		//SADL: each output is a header or a (singular) payload.
 		//Smithy: the output struct is the result payload, unless a field is marked as payload, which allows other fields
 		//to be marked as header.
 		outBodyField := ""
 		hasLabel := false
 		for _, fname := range outStruct.Members.Keys() {
-			fval := outStruct.Members.Get(fname)
+			fval := i.member(outShapeName, fname, outStruct.Members.Get(fname))
 			if fval.Traits.GetBool("smithy.api#httpPayload") {
 				outBodyField = fname
 			} else if fval.Traits.GetBool("smithy.api#httpLabel") {
@@ -857,11 +927,11 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 			//the entire output structure is the payload, no headers possible
 			out := &sadl.HttpParamSpec{}
 			out.Name = "body"
-			out.Type = i.shapeRefToTypeRef(outType)
+			out.Type = outType
 			expected.Outputs = append(expected.Outputs, out)
 		} else {
 			for _, fname := range outStruct.Members.Keys() {
-				fval := outStruct.Members.Get(fname)
+				fval := i.member(outShapeName, fname, outStruct.Members.Get(fname))
 				out := &sadl.HttpParamSpec{}
 				out.Name = fname
 				out.Type = i.shapeRefToTypeRef(fval.Target)
@@ -875,12 +945,13 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 	}
 	if shape.Errors != nil {
 		for _, etype := range shape.Errors {
+			if etype == nil {
+				i.fail("Not an error: null in %s", shapeName)
+				continue
+			}
 			eShapeName := etype.Target
-			eStruct := i.ast.GetShape(eShapeName)
+			eStruct := i.structure(eShapeName)
 			eType := i.shapeRefToTypeRef(eShapeName)
-			if eStruct == nil {
-				panic("error type not found: " + eShapeName)
-			}
 			exc := &sadl.HttpExceptionSpec{}
 			exc.Type = eType
 			exc.Status = int32(eStruct.Traits.GetInt("smithy.api#httpError"))
-- 
2.43.0


From f53ccb3629afce10c2c41b53d2deb79ec687221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:30 +0000
Subject: [PATCH 139/173] fix: Smithy import lost the constraints of members,
 and the comments and annotations of inputs and outputs

---
 smithy/import_smithy.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index f45f01b..f9c397b 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -470,6 +470,23 @@ func (i *Importer) member(shapeName string, memberName string, member *smithylib
 	return member
 }
 
+// the type of a member, with the constraints that the member adds to a base type
+func (i *Importer) importMemberType(ts *sadl.TypeSpec, member *smithylib.Member) {
+	ts.Type = i.shapeRefToTypeRef(member.Target)
+	if !strings.HasPrefix(member.Target, "smithy.api#") {
+		return
+	}
+	switch ts.Type {
+	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
+		ts.Min, ts.Max = importRange(member.Traits)
+	case "String":
+		ts.Pattern = member.Traits.GetString("smithy.api#pattern")
+		ts.MinSize, ts.MaxSize = importLength(member.Traits)
+	case "Bytes":
+		ts.MinSize, ts.MaxSize = importLength(member.Traits)
+	}
+}
+
 func (i *Importer) importTraitsAsAnnotations(annos map[string]string, traits *data.Object) map[string]string {
 	for _, k := range traits.Keys() {
 		v := traits.Get(k)
@@ -569,7 +586,7 @@ func (i *Importer) importUnionShape(shapeName string, shape *smithylib.Shape) {
 			Comment:     escapeComment(member.Traits.GetString("smithy.api#documentation")),
 			Annotations: i.importTraitsAsAnnotations(nil, member.Traits),
 		}
-		vd.Type = i.shapeRefToTypeRef(member.Target)
+		i.importMemberType(&vd.TypeSpec, member)
 		/*
 			m := member.Target
 			if strings.HasPrefix(m, prefix) {
@@ -620,7 +637,7 @@ func (i *Importer) importStructureShape(shapeName string, shape *smithylib.Shape
 			Annotations: i.importTraitsAsAnnotations(nil, member.Traits),
 			Required:    member.Traits.GetBool("smithy.api#required"),
 		}
-		fd.Type = i.shapeRefToTypeRef(member.Target)
+		i.importMemberType(&fd.TypeSpec, member)
 		if member.Traits.GetBool("smithy.api#required") {
 			fd.Required = true
 		}
@@ -811,7 +828,9 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 				fval := i.member(inShapeName, fname, inStruct.Members.Get(fname))
 				in := &sadl.OperationInput{}
 				in.Name = fname
-				in.Type = i.shapeRefToTypeRef(fval.Target)
+				in.Comment = escapeComment(fval.Traits.GetString("smithy.api#documentation"))
+				in.Annotations = i.importTraitsAsAnnotations(nil, fval.Traits)
+				i.importMemberType(&in.TypeSpec, fval)
 				in.Required = fval.Traits.GetBool("smithy.api#required")
 				inputs = append(inputs, in)
 			}
@@ -824,7 +843,9 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 				out := &sadl.OperationOutput{}
 				fval := i.member(outShapeName, fname, outStruct.Members.Get(fname))
 				out.Name = fname
-				out.Type = i.shapeRefToTypeRef(fval.Target)
+				out.Comment = escapeComment(fval.Traits.GetString("smithy.api#documentation"))
+				out.Annotations = i.importTraitsAsAnnotations(nil, fval.Traits)
+				i.importMemberType(&out.TypeSpec, fval)
 				outputs = append(outputs, out)
 			}
 			odef.Outputs = outputs
@@ -877,7 +898,9 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 					fval := i.member(inShapeName, fname, inStruct.Members.Get(fname))
 					in := &sadl.HttpParamSpec{}
 					in.Name = fname
-					in.Type = i.shapeRefToTypeRef(fval.Target)
+					in.Comment = escapeComment(fval.Traits.GetString("smithy.api#documentation"))
+					in.Annotations = i.importTraitsAsAnnotations(nil, fval.Traits)
+					i.importMemberType(&in.TypeSpec, fval)
 					in.Required = fval.Traits.GetBool("smithy.api#required")
 					in.Query = fval.Traits.GetString("smithy.api#httpQuery")
 					if in.Query != "" {
@@ -934,7 +957,9 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 				fval := i.member(outShapeName, fname, outStruct.Members.Get(fname))
 				out := &sadl.HttpParamSpec{}
 				out.Name = fname
-				out.Type = i.shapeRefToTypeRef(fval.Target)
+				out.Comment = escapeComment(fval.Traits.GetString("smithy.api#documentation"))
+				out.Annotations = i.importTraitsAsAnnotations(nil, fval.Traits)
+				i.importMemberType(&out.TypeSpec, fval)
 				out.Required = fval.Traits.GetBool("smithy.api#required")
 				out.Header = fval.Traits.GetString("smithy.api#httpHeader")
 				out.Query = fval.Traits.GetString("smithy.api#httpQuery")
-- 
2.43.0


From 4560337b469277e7e4ee9729b7b178a85124144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:29 +0000
Subject: [PATCH 140/173] fix: Smithy import lost the types of bodies that are
 a whole input or output, and made bodies of inputs and outputs with headers
 only

---
 smithy/import_smithy.go | 90 ++++++++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 42 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index f9c397b..25c6ff9 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -95,6 +95,7 @@ type Importer struct {
 	namespace string
 	ast       *smithylib.AST
 	ioParams  map[string]*smithylib.Shape
+	types     map[string]bool //the shapes that are used as types
 	schema    *sadl.Schema
 	err       error
 }
@@ -110,6 +111,7 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 	i := &Importer{
 		ast:      ast,
 		ioParams: make(map[string]*smithylib.Shape, 0),
+		types:    make(map[string]bool, 0),
 	}
 	name := conf.GetString("name")
 	if name != "" {
@@ -186,6 +188,7 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 				i.ioParams[shapeDef.Output.Target] = i.ast.GetShape(shapeDef.Output.Target)
 			}
 		}
+		i.noteTypes(shapeDef)
 	}
 	if schema.Name == "" {
 		schema.Name = stripNamespace(serviceName)
@@ -205,8 +208,50 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 	return sadl.NewModel(schema)
 }
 
+// note the shapes used as types: members, errors, and inputs and outputs that are a body as a whole
+func (i *Importer) noteTypes(shape *smithylib.Shape) {
+	members := []*smithylib.Member{shape.Member, shape.Key, shape.Value}
+	for _, k := range shape.Members.Keys() {
+		members = append(members, shape.Members.Get(k))
+	}
+	for _, member := range members {
+		if member != nil {
+			i.types[member.Target] = true
+		}
+	}
+	for _, ref := range shape.Errors {
+		if ref != nil {
+			i.types[ref.Target] = true
+		}
+	}
+	if shape.Traits.Has("smithy.api#http") {
+		for _, ref := range []*smithylib.ShapeRef{shape.Input, shape.Output} {
+			if ref != nil && !hasHttpBindings(i.ast.GetShape(ref.Target)) {
+				i.types[ref.Target] = true
+			}
+		}
+	}
+}
+
+// true if some member of the input or output goes into the path, the query, a header or the payload: then it is not a body itself
+func hasHttpBindings(shape *smithylib.Shape) bool {
+	if shape == nil || shape.Members.Length() == 0 {
+		return true
+	}
+	for _, k := range shape.Members.Keys() {
+		if member := shape.Members.Get(k); member != nil {
+			for _, trait := range []string{"httpPayload", "httpLabel", "httpQuery", "httpHeader"} {
+				if member.Traits.Has("smithy.api#" + trait) {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
+
 func (i *Importer) importShape(shapeName string, shapeDef *smithylib.Shape) {
-	if _, ok := i.ioParams[shapeName]; ok {
+	if _, ok := i.ioParams[shapeName]; ok && !i.types[shapeName] {
 		return
 	}
 	switch shapeDef.Type {
@@ -605,22 +650,6 @@ func (i *Importer) importUnionShape(shapeName string, shape *smithylib.Shape) {
 }
 
 func (i *Importer) importStructureShape(shapeName string, shape *smithylib.Shape) {
-	//unless...no httpTraits, in which case is should equivalent to a payload description
-	if _, ok := i.ioParams[shapeName]; ok {
-		shape := i.ast.GetShape(shapeName)
-		for _, k := range shape.Members.Keys() {
-			fval := shape.Members.Get(k)
-			if fval.Traits.GetBool("smithy.api#httpLabel") {
-				return
-			}
-			if fval.Traits.GetBool("smithy.api#httpPayload") {
-				return
-			}
-			if fval.Traits.GetString("smithy.api#httpQuery") != "" {
-				return
-			}
-		}
-	}
 	sadlName := stripNamespace(shapeName)
 	td := &sadl.TypeDef{
 		Name:        sadlName,
@@ -878,21 +907,8 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 	if shape.Input != nil && inShapeName != "smithy.api#Unit" {
 		inStruct := i.structure(inShapeName)
 		qs := ""
-		payloadMember := ""
-		hasLabel := false
-		hasQuery := false
 		if inStruct != nil {
-			for _, fname := range inStruct.Members.Keys() {
-				fval := i.member(inShapeName, fname, inStruct.Members.Get(fname))
-				if fval.Traits.GetBool("smithy.api#httpPayload") {
-					payloadMember = fname
-				} else if fval.Traits.GetBool("smithy.api#httpLabel") {
-					hasLabel = true
-				} else if fval.Traits.GetBool("smithy.api#httpQuery") {
-					hasQuery = true
-				}
-			}
-			if hasLabel || hasQuery || payloadMember != "" {
+			if hasHttpBindings(inStruct) {
 				//the input might *have* a body
 				for _, fname := range inStruct.Members.Keys() {
 					fval := i.member(inShapeName, fname, inStruct.Members.Get(fname))
@@ -936,17 +952,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 		//SADL: each output is a header or a (singular) payload.
 		//Smithy: the output struct is the result payload, unless a field is marked as payload, which allows other fields
 		//to be marked as header.
-		outBodyField := ""
-		hasLabel := false
-		for _, fname := range outStruct.Members.Keys() {
-			fval := i.member(outShapeName, fname, outStruct.Members.Get(fname))
-			if fval.Traits.GetBool("smithy.api#httpPayload") {
-				outBodyField = fname
-			} else if fval.Traits.GetBool("smithy.api#httpLabel") {
-				hasLabel = true
-			}
-		}
-		if outBodyField == "" && !hasLabel {
+		if !hasHttpBindings(outStruct) {
 			//the entire output structure is the payload, no headers possible
 			out := &sadl.HttpParamSpec{}
 			out.Name = "body"
-- 
2.43.0


From d899eaaff19462104f144880467550ce9bd29606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:29 +0000
Subject: [PATCH 141/173] fix: Smithy import gave query parameters another name
 in the path, errors without httpError no status, and took other http traits
 for a body

---
 smithy/import_smithy.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 25c6ff9..22dc7b5 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -240,7 +240,7 @@ func hasHttpBindings(shape *smithylib.Shape) bool {
 	}
 	for _, k := range shape.Members.Keys() {
 		if member := shape.Members.Get(k); member != nil {
-			for _, trait := range []string{"httpPayload", "httpLabel", "httpQuery", "httpHeader"} {
+			for _, trait := range append(unsupportedBindings, "httpPayload", "httpLabel", "httpQuery", "httpHeader") {
 				if member.Traits.Has("smithy.api#" + trait) {
 					return true
 				}
@@ -250,6 +250,17 @@ func hasHttpBindings(shape *smithylib.Shape) bool {
 	return false
 }
 
+// what SADL has no parameters for
+var unsupportedBindings = []string{"httpQueryParams", "httpPrefixHeaders", "httpResponseCode"}
+
+func (i *Importer) refuseBindings(shapeName string, memberName string, member *smithylib.Member) {
+	for _, trait := range unsupportedBindings {
+		if member.Traits.Has("smithy.api#" + trait) {
+			i.fail("Unsupported trait %s: %s of %s", trait, memberName, shapeName)
+		}
+	}
+}
+
 func (i *Importer) importShape(shapeName string, shapeDef *smithylib.Shape) {
 	if _, ok := i.ioParams[shapeName]; ok && !i.types[shapeName] {
 		return
@@ -912,6 +923,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 				//the input might *have* a body
 				for _, fname := range inStruct.Members.Keys() {
 					fval := i.member(inShapeName, fname, inStruct.Members.Get(fname))
+					i.refuseBindings(inShapeName, fname, fval)
 					in := &sadl.HttpParamSpec{}
 					in.Name = fname
 					in.Comment = escapeComment(fval.Traits.GetString("smithy.api#documentation"))
@@ -920,12 +932,12 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 					in.Required = fval.Traits.GetBool("smithy.api#required")
 					in.Query = fval.Traits.GetString("smithy.api#httpQuery")
 					if in.Query != "" {
-						if qs == "" {
+						if qs == "" && !strings.Contains(uri, "?") {
 							qs = "?"
 						} else {
 							qs = qs + "&"
 						}
-						qs = qs + fname + "={" + fname + "}"
+						qs = qs + in.Query + "={" + fname + "}"
 					}
 					in.Header = fval.Traits.GetString("smithy.api#httpHeader")
 					in.Path = fval.Traits.GetBool("smithy.api#httpLabel")
@@ -961,6 +973,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 		} else {
 			for _, fname := range outStruct.Members.Keys() {
 				fval := i.member(outShapeName, fname, outStruct.Members.Get(fname))
+				i.refuseBindings(outShapeName, fname, fval)
 				out := &sadl.HttpParamSpec{}
 				out.Name = fname
 				out.Comment = escapeComment(fval.Traits.GetString("smithy.api#documentation"))
@@ -986,6 +999,14 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 			exc := &sadl.HttpExceptionSpec{}
 			exc.Type = eType
 			exc.Status = int32(eStruct.Traits.GetInt("smithy.api#httpError"))
+			if exc.Status == 0 {
+				switch eStruct.Traits.GetString("smithy.api#error") {
+				case "client":
+					exc.Status = 400
+				case "server":
+					exc.Status = 500
+				}
+			}
 			exc.Comment = escapeComment(eStruct.Traits.GetString("smithy.api#documentation"))
 			//preserve other traits as annotations?
 			hdef.Exceptions = append(hdef.Exceptions, exc)
-- 
2.43.0


From 821e77f5046eb274da7d8108edc35ad57e09acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:23 +0000
Subject: [PATCH 142/173] fix: Smithy import lost the namespace, the name in
 the metadata and the comment of the service, and changed the configuration

---
 smithy/import_smithy.go | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 22dc7b5..e50e895 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -29,18 +29,11 @@ func IsValidFile(path string) bool {
 }
 
 func Import(paths []string, conf *sadl.Data) (*sadl.Model, error) {
-	var err error
-	name := conf.GetString("name")
-	namespace := conf.GetString("namespace")
-	if namespace == "" {
-		conf.Put("namespace", UnspecifiedNamespace)
-	}
 	var tags []string //fir filtering, if non-nil
 	model, err := AssembleModel(paths, tags)
 	if err != nil {
 		return nil, err
 	}
-	conf.Put("name", name)
 	return ToSadl(model, conf)
 }
 
@@ -146,19 +139,13 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 	}
 	//	annos["x_smithy_version"] = model.ast.Version
 	schema := &sadl.Schema{
-		Name:        name,
+		Name:        i.name,
 		Namespace:   namespace,
 		Sadl:        sadl.Version,
 		Annotations: annos,
 		Base:        base,
 	}
 	//capture?     ast.Smithy
-	if schema.Namespace == UnspecifiedNamespace {
-		schema.Namespace = ""
-	}
-	if schema.Version == UnspecifiedVersion {
-		schema.Version = ""
-	}
 	i.schema = schema
 
 	serviceName := ""
@@ -180,6 +167,7 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 			}
 			serviceName = shapeName
 			serviceVersion = shapeDef.Version
+			schema.Comment = escapeComment(shapeDef.Traits.GetString("smithy.api#documentation"))
 		} else if shapeDef.Type == "operation" {
 			if shapeDef.Input != nil {
 				i.ioParams[shapeDef.Input.Target] = i.ast.GetShape(shapeDef.Input.Target)
@@ -190,12 +178,25 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 		}
 		i.noteTypes(shapeDef)
 	}
+	if service != "" && serviceName == "" {
+		return nil, fmt.Errorf("No such service: %s", service)
+	}
 	if schema.Name == "" {
 		schema.Name = stripNamespace(serviceName)
 	}
-	if schema.Version == "" {
+	if schema.Version == "" && serviceVersion != UnspecifiedVersion {
 		schema.Version = serviceVersion
 	}
+	if schema.Namespace == "" {
+		if serviceName != "" {
+			schema.Namespace = namespaceOf(serviceName)
+		} else if ast.Shapes.Length() > 0 {
+			schema.Namespace = namespaceOf(ast.Shapes.Keys()[0])
+		}
+	}
+	if schema.Namespace == UnspecifiedNamespace {
+		schema.Namespace = ""
+	}
 	for _, k := range ast.Shapes.Keys() {
 		v := ast.Shapes.Get(k)
 		if v.Type != "service" || k == serviceName {
@@ -1028,6 +1029,14 @@ func WithAnnotation(annos map[string]string, key string, value string) map[strin
 	return annos
 }
 
+func namespaceOf(id string) string {
+	n := strings.Index(id, "#")
+	if n < 0 {
+		return ""
+	}
+	return id[:n]
+}
+
 func stripNamespace(trait string) string {
 	n := strings.Index(trait, "#")
 	if n < 0 {
-- 
2.43.0


From 810438336521ed9bf7fb2b66ef7e82b62a577199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:53 +0000
Subject: [PATCH 143/173] fix: Smithy import lost examples of errors,
 sensitivity and uniqueness, and gave examples, pagination and deprecation
 another form

---
 smithy/import_smithy.go | 76 +++++++++++++++++++++++++++++++++--------
 1 file changed, 61 insertions(+), 15 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index e50e895..f782878 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -329,6 +329,29 @@ func importNumber(v interface{}) *sadl.Decimal {
 	return sadl.AsDecimal(v)
 }
 
+// a value in a trait, from the AST or from the IDL, as plain data
+func importValue(v interface{}) interface{} {
+	switch t := v.(type) {
+	case *data.Object:
+		return importValue(data.AsMap(t))
+	case map[string]interface{}:
+		m := make(map[string]interface{}, len(t))
+		for k, x := range t {
+			m[k] = importValue(x)
+		}
+		return m
+	case []interface{}:
+		a := make([]interface{}, 0, len(t))
+		for _, x := range t {
+			a = append(a, importValue(x))
+		}
+		return a
+	case *data.Decimal, data.Decimal:
+		return importNumber(t)
+	}
+	return v
+}
+
 func importRange(traits *data.Object) (*sadl.Decimal, *sadl.Decimal) {
 	l := traits.GetMap("smithy.api#range")
 	return importNumber(l["min"]), importNumber(l["max"])
@@ -403,7 +426,7 @@ func (i *Importer) importStringShape(shapeName string, shape *smithylib.Shape) {
 		if lst != nil {
 			var values []string
 			for _, v := range lst {
-				m := sadl.AsMap(v)
+				m := data.AsMap(v)
 				s := sadl.GetString(m, "value")
 				values = append(values, s)
 			}
@@ -440,7 +463,7 @@ func (i *Importer) importEnum(shapeName string, shape *smithylib.Shape) bool {
 	isEnum := false
 	couldBeEnum := false
 	for _, v := range lst {
-		m := sadl.AsMap(v)
+		m := data.AsMap(v)
 		sym := sadl.GetString(m, "name")
 		if sym == "" {
 			if StringValuesNeverEnum {
@@ -558,7 +581,11 @@ func (i *Importer) importTraitsAsAnnotations(annos map[string]string, traits *da
 			/* ignore, implicit in SADL */
 		case "smithy.api#tags":
 			annos = WithAnnotation(annos, "x_"+stripNamespace(k), strings.Join(sadl.AsStringArray(v), ","))
-		case "smithy.api#readonly", "smithy.api#idempotent", "smithy.api#sensitive", "smithy.api#box":
+		case "smithy.api#sensitive":
+			annos = WithAnnotation(annos, "x_sensitive", "true")
+		case "smithy.api#uniqueItems":
+			annos = WithAnnotation(annos, "x_unique", "true")
+		case "smithy.api#readonly", "smithy.api#idempotent", "smithy.api#box":
 			//			annos = WithAnnotation(annos, "x_"+stripNamespace(k), "true")
 		case "smithy.api#http":
 			/* ignore, handled elsewhere */
@@ -567,7 +594,7 @@ func (i *Importer) importTraitsAsAnnotations(annos map[string]string, traits *da
 		case "smithy.api#deprecated":
 			//message
 			//since
-			dv := sadl.AsMap(v)
+			dv := data.AsMap(v)
 			annos = WithAnnotation(annos, "x_deprecated", "true")
 			msg := sadl.GetString(dv, "message")
 			if msg != "" {
@@ -578,13 +605,14 @@ func (i *Importer) importTraitsAsAnnotations(annos map[string]string, traits *da
 				annos = WithAnnotation(annos, "x_deprecated_since", since)
 			}
 		case "smithy.api#paginated":
-			dv := sadl.AsMap(v)
-			inputToken := sadl.AsString(dv["inputToken"])
-			outputToken := sadl.AsString(dv["outputToken"])
-			pageSize := sadl.AsString(dv["pageSize"])
-			items := sadl.AsString(dv["items"])
-			s := fmt.Sprintf("inputToken=%s,outputToken=%s,pageSize=%s,items=%s", inputToken, outputToken, pageSize, items)
-			annos = WithAnnotation(annos, "x_paginated", s)
+			dv := data.AsMap(v)
+			var lst []string
+			for _, key := range []string{"inputToken", "outputToken", "pageSize", "items"} {
+				if s := sadl.AsString(dv[key]); s != "" {
+					lst = append(lst, key+"="+s)
+				}
+			}
+			annos = WithAnnotation(annos, "x_paginated", strings.Join(lst, ","))
 		case "aws.protocols#restJson1":
 			//ignore
 		case "smithy.api#examples":
@@ -830,16 +858,31 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 	}
 	reqType := sadl.Capitalize(stripNamespace(shapeName)) + "Request"
 	resType := sadl.Capitalize(stripNamespace(shapeName)) + "Response"
-	if opexes := shape.Traits.GetArray("smithy.api#examples"); opexes != nil {
+	//the example for the parameters: there is just one, if the structure is the body
+	params := func(ref *smithylib.ShapeRef, example interface{}) interface{} {
+		if ref != nil && !hasHttpBindings(i.ast.GetShape(ref.Target)) {
+			return map[string]interface{}{"body": example}
+		}
+		return example
+	}
+	if opexes := shape.Traits.GetArray("smithy.api#examples"); opexes != nil && method != "" {
 		for _, opexr := range opexes {
-			if opex, ok := opexr.(map[string]interface{}); ok {
+			if opex, ok := importValue(opexr).(map[string]interface{}); ok {
 				title := sadl.GetString(opex, "title")
 				if input, ok := opex["input"]; ok {
 					ex := &sadl.ExampleDef{
 						Target:  reqType,
 						Name:    title,
 						Comment: sadl.GetString(opex, "documentation"),
-						Example: input,
+						Example: params(shape.Input, input),
+					}
+					i.schema.Examples = append(i.schema.Examples, ex)
+				}
+				if e := sadl.AsMap(opex["error"]); e != nil {
+					ex := &sadl.ExampleDef{
+						Target:  i.shapeRefToTypeRef(sadl.GetString(e, "shapeId")),
+						Name:    title,
+						Example: e["content"],
 					}
 					i.schema.Examples = append(i.schema.Examples, ex)
 				}
@@ -847,7 +890,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 					ex := &sadl.ExampleDef{
 						Target:  resType,
 						Name:    title,
-						Example: output,
+						Example: params(shape.Output, output),
 					}
 					i.schema.Examples = append(i.schema.Examples, ex)
 				}
@@ -1110,6 +1153,9 @@ func expandPaths(paths []string) ([]string, error) {
 					}
 					return nil
 				})
+				if err != nil {
+					return nil, err
+				}
 			}
 		}
 	}
-- 
2.43.0


From 609d6e2ece49129d8b192603a731b7934892ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:48 +0000
Subject: [PATCH 144/173] fix: conversions ended with success when their output
 could not be written

---
 cmd/sadl/export.go                | 8 ++++----
 graphql/export_graphql.go         | 4 ++--
 httptrace/export_http_examples.go | 4 +++-
 openapi/export_openapi.go         | 4 ++--
 smithy/export_smithy.go           | 6 +++---
 5 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/cmd/sadl/export.go b/cmd/sadl/export.go
index 1e5167d..97de2e8 100644
--- a/cmd/sadl/export.go
+++ b/cmd/sadl/export.go
@@ -26,11 +26,11 @@ func SetupCommandLineArgs(generator string) {
 func ExportFiles(model *sadl.Model, generator, dir string, conf *sadl.Data) error {
 	switch generator {
 	case "json", "sadl-ast":
-		fmt.Println(sadl.Pretty(model))
-		return nil
+		_, err := fmt.Println(sadl.Pretty(model))
+		return err
 	case "sadl":
-		fmt.Println(sadl.DecompileSadl(model))
-		return nil
+		_, err := fmt.Println(sadl.DecompileSadl(model))
+		return err
 	case "smithy":
 		return smithy.Export(model, dir, conf, false)
 	case "smithy-ast":
diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index d59c44b..5649c76 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -15,8 +15,8 @@ func Export(model *sadl.Model, conf *sadl.Data) error {
 	if err != nil {
 		return err
 	}
-	fmt.Print(s)
-	return nil
+	_, err = fmt.Print(s)
+	return err
 }
 
 func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index a1508db..de3b7a3 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -16,7 +16,9 @@ func Export(model *sadl.Model, conf *sadl.Data) error {
 		if err != nil {
 			return err
 		}
-		fmt.Println(snippet)
+		if _, err := fmt.Println(snippet); err != nil {
+			return err
+		}
 	}
 	return nil
 }
diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 2463707..02a4818 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -14,8 +14,8 @@ func Export(model *sadl.Model, conf *sadl.Data) error {
 	if err != nil {
 		return err
 	}
-	fmt.Println(sadl.Pretty(doc))
-	return nil
+	_, err = fmt.Println(sadl.Pretty(doc))
+	return err
 }
 
 type Generator struct {
diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index ca3aa9d..fb4681b 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -28,11 +28,11 @@ func Export(model *sadl.Model, out string, conf *sadl.Data, exportAst bool) erro
 		return fmt.Errorf("sadl2smithy: Cannot convert SADL to Smithy: %v\n", err)
 	}
 	if exportAst {
-		fmt.Println(sadl.Pretty(ast))
+		_, err = fmt.Println(sadl.Pretty(ast))
 	} else {
-		fmt.Print(ast.IDL(ns))
+		_, err = fmt.Print(ast.IDL(ns))
 	}
-	return nil
+	return err
 }
 
 func AllTypeRefs(model *sadl.Model) map[string]bool {
-- 
2.43.0


From 1ffd2c9fa5c47a06496475795a976630257fff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:48 +0000
Subject: [PATCH 145/173] fix: the sadl command ignored input files it could
 not read or recognize, and the -t option

---
 cmd/sadl/import.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/cmd/sadl/import.go b/cmd/sadl/import.go
index 84cf65d..e08100f 100644
--- a/cmd/sadl/import.go
+++ b/cmd/sadl/import.go
@@ -45,11 +45,16 @@ func expandPaths(paths []string) ([]string, error) {
 						return errIncoming
 					}
 					ext := filepath.Ext(wpath)
-					if _, ok := ImportFileExtensions[ext]; ok {
+					if _, ok := ImportFileExtensions[ext]; ok && !info.IsDir() {
 						result = append(result, wpath)
 					}
 					return nil
 				})
+				if err != nil {
+					return nil, err
+				}
+			} else {
+				return nil, fmt.Errorf("Cannot determine file type for input file: %s", path)
 			}
 		}
 	}
@@ -91,6 +96,7 @@ func ValidImportFileType(path string) string {
 
 func ImportFiles(paths []string, conf *sadl.Data, extensions ...sadl.Extension) (*sadl.Model, error) {
 	chosenType := ""
+	onlyType := conf.GetString("type")
 	flatPathList, err := expandPaths(paths)
 	if err != nil {
 		return nil, err
@@ -98,6 +104,12 @@ func ImportFiles(paths []string, conf *sadl.Data, extensions ...sadl.Extension)
 	var importPaths []string
 	for _, path := range flatPathList {
 		ftype := ValidImportFileType(path)
+		if ftype == "" && isNamed(path, paths) {
+			return nil, fmt.Errorf("Cannot determine file type for input file: %s", path)
+		}
+		if onlyType != "" && ftype != onlyType {
+			continue
+		}
 		if ftype != "" {
 			if chosenType == "" {
 				chosenType = ftype
@@ -115,6 +127,16 @@ func ImportFiles(paths []string, conf *sadl.Data, extensions ...sadl.Extension)
 	return importFiles(importPaths, chosenType, conf, extensions)
 }
 
+// isNamed tells a file given by its name from one found in a directory
+func isNamed(path string, paths []string) bool {
+	for _, p := range paths {
+		if p == path {
+			return true
+		}
+	}
+	return false
+}
+
 func importFiles(paths []string, ftype string, conf *sadl.Data, extensions []sadl.Extension) (*sadl.Model, error) {
 	switch ftype {
 	case "sadl":
-- 
2.43.0


From 9fde1fa1c15ad8cc438aa557a96028521212a5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:48 +0000
Subject: [PATCH 146/173] fix: the sadl command ignored an unreadable
 configuration file, crashed on an unusual home directory, cut option values
 at an equals sign, and used no configuration for go-server, go-client and
 java-client

---
 cmd/sadl/main.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/sadl/main.go b/cmd/sadl/main.go
index 3027ab6..690aeff 100644
--- a/cmd/sadl/main.go
+++ b/cmd/sadl/main.go
@@ -144,13 +144,19 @@ Supported generators and options used from config if present
 		conf, err = sadl.DataFromFile(configPath)
 		if err != nil {
 			fmt.Printf("Cannot read config file %q: %v\n", configPath, err)
+			os.Exit(3)
 		}
 	} else {
 		conf = sadl.NewData()
 	}
 	gc := gen
-	if gen == "java-server" { //todo: get rid of this hack
+	switch gen { //todo: get rid of this hack
+	case "java-model", "java-server", "java-client":
 		gc = "java"
+	case "go-model", "go-server", "go-client":
+		gc = "go"
+	case "smithy-ast":
+		gc = "smithy"
 	}
 	genConf := conf.GetData(gc)
 	genConf.Put("force-overwrite", force)
@@ -158,7 +164,7 @@ Supported generators and options used from config if present
 		k := kv
 		var v interface{}
 		v = true
-		kvs := strings.Split(kv, "=")
+		kvs := strings.SplitN(kv, "=", 2)
 		if len(kvs) > 1 {
 			k = kvs[0]
 			v = kvs[1]
@@ -174,7 +180,7 @@ Supported generators and options used from config if present
 
 func fileExists(filename string) bool {
 	info, err := os.Stat(filename)
-	if os.IsNotExist(err) {
+	if err != nil {
 		return false
 	}
 	return !info.IsDir()
-- 
2.43.0


From 094b3d317f25c1c48dc7782848a914eeebe469e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:48 +0000
Subject: [PATCH 147/173] fix: the swagger-ui server mixed up the answers of
 concurrent requests

---
 cmd/sadl/serve.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/sadl/serve.go b/cmd/sadl/serve.go
index 50a44a0..609abab 100644
--- a/cmd/sadl/serve.go
+++ b/cmd/sadl/serve.go
@@ -25,7 +25,6 @@ func serveSwaggerUi(model *sadl.Model, conf *sadl.Data) error {
 		return err
 	}
 	docPretty := sadl.Pretty(doc)
-	docContent := bytes.NewReader([]byte(docPretty))
 	modTime := time.Now()
 	apiName := model.Name + ".json"
 	fmt.Println("show swagger-ui for:", apiName, "at http://localhost:8080/")
@@ -62,15 +61,21 @@ func serveSwaggerUi(model *sadl.Model, conf *sadl.Data) error {
 		if path == "/" {
 			path = "/index.html"
 		} else if strings.HasSuffix(path, ".json") {
-			http.ServeContent(w, r, path, modTime, docContent)
+			http.ServeContent(w, r, path, modTime, strings.NewReader(docPretty))
 			return
 		}
 		if f, ok := files[path]; ok {
 			rc, err := f.Open()
 			if err != nil {
 				w.WriteHeader(http.StatusInternalServerError)
+				return
 			}
 			data, err := ioutil.ReadAll(rc)
+			if err != nil {
+				rc.Close()
+				w.WriteHeader(http.StatusInternalServerError)
+				return
+			}
 			if path == "/index.html" {
 				fmt.Println("index file detected, rewrite the default URL to", apiName)
 				data = []byte(strings.Replace(string(data), "https://petstore.swagger.io/v2/swagger.json", apiName, -1))
@@ -103,6 +108,9 @@ func cacheSwaggerDist() (string, error) {
 		return "", err
 	}
 	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return "", fmt.Errorf("%s: %s", swaggerUrl(version), resp.Status)
+	}
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return "", err
-- 
2.43.0


From 10ff9caf3224b056215a1607e9112a972f1419e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:27 +0000
Subject: [PATCH 148/173] fix: OpenAPI import crashed on an empty file

---
 openapi/import_openapi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index b1c4635..3af5463 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -31,9 +31,9 @@ func Load(path string) (*Model, error) {
 	v3 := &Model{}
 	ext := filepath.Ext(path)
 	if ext == ".yaml" {
-		err = yaml.Unmarshal(data, &v3)
+		err = yaml.Unmarshal(data, v3)
 	} else {
-		err = json.Unmarshal(data, &v3)
+		err = json.Unmarshal(data, v3)
 	}
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 7cb71bf4d23363749cdd681e85413d07a693f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:08 +0000
Subject: [PATCH 149/173] fix: input directories whose names end like those of
 files, and files that are no Smithy model

---
 cmd/sadl/import.go      |  8 +++++++-
 smithy/import_smithy.go | 12 ++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/cmd/sadl/import.go b/cmd/sadl/import.go
index e08100f..675fb3a 100644
--- a/cmd/sadl/import.go
+++ b/cmd/sadl/import.go
@@ -32,7 +32,7 @@ func expandPaths(paths []string) ([]string, error) {
 	var result []string
 	for _, path := range paths {
 		ext := filepath.Ext(path)
-		if _, ok := ImportFileExtensions[ext]; ok {
+		if _, ok := ImportFileExtensions[ext]; ok && !isDirectory(path) {
 			result = append(result, path)
 		} else {
 			fi, err := os.Stat(path)
@@ -61,6 +61,12 @@ func expandPaths(paths []string) ([]string, error) {
 	return result, nil
 }
 
+// isDirectory is about the file itself: the name of a directory may end like that of a file
+func isDirectory(path string) bool {
+	fi, err := os.Stat(path)
+	return err == nil && fi.IsDir()
+}
+
 func ValidImportFileType(path string) string {
 	ext := filepath.Ext(path)
 	if ftypes, ok := ImportFileExtensions[ext]; ok {
diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index f782878..be4c8f7 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -1131,11 +1131,17 @@ var ImportFileExtensions = map[string][]string{
 	".json":   []string{"smithy"},
 }
 
+// isDirectory is about the file itself: the name of a directory may end like that of a file
+func isDirectory(path string) bool {
+	fi, err := os.Stat(path)
+	return err == nil && fi.IsDir()
+}
+
 func expandPaths(paths []string) ([]string, error) {
 	var result []string
 	for _, path := range paths {
 		ext := filepath.Ext(path)
-		if _, ok := ImportFileExtensions[ext]; ok {
+		if _, ok := ImportFileExtensions[ext]; ok && !isDirectory(path) {
 			result = append(result, path)
 		} else {
 			fi, err := os.Stat(path)
@@ -1148,7 +1154,7 @@ func expandPaths(paths []string) ([]string, error) {
 						return errIncoming
 					}
 					ext := filepath.Ext(wpath)
-					if _, ok := ImportFileExtensions[ext]; ok {
+					if _, ok := ImportFileExtensions[ext]; ok && !info.IsDir() {
 						result = append(result, wpath)
 					}
 					return nil
@@ -1156,6 +1162,8 @@ func expandPaths(paths []string) ([]string, error) {
 				if err != nil {
 					return nil, err
 				}
+			} else {
+				return nil, fmt.Errorf("Cannot determine file type for input file: %s", path)
 			}
 		}
 	}
-- 
2.43.0


From cf4c3adbbeae23cf0bfc7b22952b2aa85646a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:41 +0000
Subject: [PATCH 150/173] fix: the comment after an include statement went to
 the next definition

---
 parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.go b/parser.go
index f4a446a..7df1f2b 100644
--- a/parser.go
+++ b/parser.go
@@ -436,6 +436,7 @@ func (p *Parser) parseIncludeDirective(comment string) error {
 				ex.Annotations = p.addAnnotation(ex.Annotations, "x_include", fname)
 				p.schema.Examples = append(p.schema.Examples, ex)
 			}
+			p.schema.Comment = p.endOfBlock(p.schema.Comment)
 		}
 	}
 	return err
-- 
2.43.0


From ebb3853eacba6aa20044d8b581485fee51bdfdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:40 +0000
Subject: [PATCH 151/173] fix: examples with names that are no identifiers were
 written as source that cannot be parsed

---
 parser.go   | 10 +++++++++-
 unparser.go | 17 ++++++++++-------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/parser.go b/parser.go
index 7df1f2b..a230563 100644
--- a/parser.go
+++ b/parser.go
@@ -1427,6 +1427,14 @@ func (p *Parser) expectEqualsString() (string, error) {
 	return p.ExpectString()
 }
 
+func (p *Parser) expectEqualsText() (string, error) {
+	err := p.expect(scanner.EQUALS)
+	if err != nil {
+		return "", err
+	}
+	return p.expectText()
+}
+
 func (p *Parser) expectText() (string, error) {
 	tok := p.GetToken()
 	if tok == nil {
@@ -1608,7 +1616,7 @@ func (p *Parser) ParseOptions(typeName string, acceptable []string) (*Options, e
 					case "header":
 						options.Header, err = p.expectEqualsString()
 					case "name":
-						options.Name, err = p.expectEqualsIdentifier()
+						options.Name, err = p.expectEqualsText()
 					default:
 						err = p.Error("Unrecognized option: " + tok.Text)
 					}
diff --git a/unparser.go b/unparser.go
index 617680c..bf7ee72 100644
--- a/unparser.go
+++ b/unparser.go
@@ -46,12 +46,7 @@ func (g *SadlGenerator) Generate() string {
 		"literal": func(s string) string {
 			return fmt.Sprintf("%q", s)
 		},
-		"name": func(s string) string {
-			if !namePattern.MatchString(s) {
-				return fmt.Sprintf("%q", s)
-			}
-			return s
-		},
+		"name": quotedName,
 		"namespace": func(s string) string {
 			if !namespacePattern.MatchString(s) {
 				return fmt.Sprintf("%q", s)
@@ -77,7 +72,7 @@ func (g *SadlGenerator) Generate() string {
 		"example": func(ed *ExampleDef) string {
 			var opts []string
 			if ed.Name != "" {
-				opts = append(opts, "name="+ed.Name)
+				opts = append(opts, "name="+quotedName(ed.Name))
 			}
 			opts = append(opts, annotationOptions(ed.Annotations)...)
 			return fmt.Sprintf("example %s%s %s\n", ed.Target, formatOptions(opts), Pretty(ed.Example))
@@ -101,6 +96,14 @@ func (g *SadlGenerator) CreateSadlSource() {
 	}
 }
 
+// a name as it is where it can be, and in quotes otherwise
+func quotedName(s string) string {
+	if !namePattern.MatchString(s) {
+		return fmt.Sprintf("%q", s)
+	}
+	return s
+}
+
 // the annotations in the form of options, in a definite order
 func annotationOptions(annos map[string]string) []string {
 	var opts []string
-- 
2.43.0


From d546d3f33ffc536978411dfcae95500295fb2aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:45 +0000
Subject: [PATCH 152/173] fix: exceptions without a type or with a base type
 were exported to OpenAPI as dangling references

---
 openapi/export_openapi.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 02a4818..a38f81c 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -249,13 +249,15 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				Description: comment,
 				Content:     content,
 			}
-			tr := &Schema{
-				Ref: "#/components/schemas/" + out.Type,
-			}
-			mt := &MediaType{
-				Schema: tr,
+			if out.Type != "" {
+				tr, err := gen.oasSchema(&sadl.TypeSpec{Type: out.Type}, "")
+				if err != nil {
+					return nil, err
+				}
+				content["application/json"] = &MediaType{
+					Schema: tr,
+				}
 			}
-			content["application/json"] = mt
 			key := "default"
 			if out.Status != 0 {
 				key = fmt.Sprint(out.Status)
-- 
2.43.0


From 7d403ad948aabaf21dbff632ce1c16a58e448e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:53 +0000
Subject: [PATCH 153/173] fix: generated Go of a union with a variant that is
 the union itself did not compile

---
 golang/golang_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 1b5700f..2671790 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -188,6 +188,10 @@ func (gen *Generator) EmitUnionType(td *sadl.TypeDef, errors map[string]bool) {
 	for _, fd := range td.Variants {
 		fname := capitalize(fd.Name)
 		ftype := gen.nativeTypeName(&fd.TypeSpec, fd.Type)
+		if vd := gen.Model.FindType(fd.Type); vd != nil && vd.Type == "Union" {
+			//a union that contains itself has to do so through a pointer
+			ftype = "*" + ftype
+		}
 		anno := " `json:\"" + fd.Name + ",omitempty\"`"
 		gen.Emit("    " + fname + " " + ftype + anno + "\n")
 	}
-- 
2.43.0


From 8bea29388e0aa146ecf83e9d49b86f4c85989cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:53 +0000
Subject: [PATCH 154/173] fix: generated Java of a collection of inline structs
 did not compile, it is now refused

---
 java/export_java.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/java/export_java.go b/java/export_java.go
index 34b3ef6..0ccaf19 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -859,6 +859,10 @@ func (gen *Generator) itemTypeName(name string) string {
 		gen.Err = fmt.Errorf("A collection that contains itself is not supported: %s", name)
 		return "Object"
 	}
+	if name == "Struct" || name == "Enum" {
+		gen.Err = fmt.Errorf("Inline %s is not supported for the items of a collection, define a type for it", name)
+		return "Object"
+	}
 	td := gen.Model.FindType(name)
 	if td == nil {
 		gen.Err = fmt.Errorf("Undefined type: %s", name)
-- 
2.43.0


From 6ee11ac1b35cc77ecbf1972b797269b0e8390a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:31 +0000
Subject: [PATCH 155/173] fix: inline types whose names are those of classes
 around or beside them gave Java that does not compile

---
 java/export_java.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 0ccaf19..ab3e642 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -41,6 +41,7 @@ type Generator struct {
 	NeedUtil         bool
 	imports          []string
 	items            map[string]bool
+	outer            []string //the classes around the one being generated
 	ServerData       *ServerData
 	ClientData       *ClientData
 }
@@ -367,7 +368,7 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
     }
 `)
 		}
-		gen.CreateNestedPojos(nested, indent+"    ")
+		gen.CreateNestedPojos(className, nested, indent+"    ")
 	}
 	gen.Emit("}\n")
 }
@@ -598,13 +599,24 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
     }
 `)
 	}
-	gen.CreateNestedPojos(nested, indent1)
+	gen.CreateNestedPojos(className, nested, indent1)
 	gen.Emit("}\n")
 }
 
 // CreateNestedPojos emits the inner classes for the inline types of a class, in the order they are used
-func (gen *Generator) CreateNestedPojos(nested []*sadl.TypeDef, indent string) {
+func (gen *Generator) CreateNestedPojos(className string, nested []*sadl.TypeDef, indent string) {
+	outer := gen.outer
+	defer func() { gen.outer = outer }()
+	gen.outer = append(gen.outer[:len(outer):len(outer)], className)
+	taken := append([]string{}, gen.outer...)
 	for _, td := range nested {
+		for _, name := range taken {
+			if td.Name == name {
+				gen.Err = fmt.Errorf("Cannot have identically named inner class with same name as containing class or other inner class: %q", name)
+				return
+			}
+		}
+		taken = append(taken, td.Name)
 		if td.Type == "Enum" {
 			gen.CreateEnumPojo(&td.TypeSpec, td.Name)
 		} else {
-- 
2.43.0


From 02567f9ad87c7e2b6644c1815464b2c22bc3f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:26 +0000
Subject: [PATCH 156/173] fix: the Go service generator refuses exceptions that
 are not structures and union parameters

---
 golang/export_golang.go | 8 ++++++++
 golang/golang_client.go | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index b53084a..31491b7 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -83,6 +83,14 @@ func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generato
 		if hd.Expected == nil && gen.Err == nil {
 			gen.Err = fmt.Errorf("HTTP action %q has no expected response", hd.Name)
 		}
+		if gen.createServer || gen.createClient {
+			for _, ex := range hd.Exceptions {
+				td := model.FindType(ex.Type)
+				if (td == nil || td.Type != "Struct" || ex.Type == "Struct") && gen.Err == nil {
+					gen.Err = fmt.Errorf("HTTP action %q has an exception that is not a structure: %q", hd.Name, ex.Type)
+				}
+			}
+		}
 	}
 	return gen
 }
diff --git a/golang/golang_client.go b/golang/golang_client.go
index 58c4d75..4e3eed9 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -187,6 +187,9 @@ func (gen *Generator) notSet(sadlType string) string {
 		return "0.0"
 	case "Bool":
 		return "false"
+	case "Union":
+		gen.unsupported("query and header " + bt)
+		return "nil"
 	default:
 		return "nil"
 	}
-- 
2.43.0


From 89fe041eb0830b9eeaaa6038a804587a8d2781fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:26 +0000
Subject: [PATCH 157/173] fix: the Java service generator refuses exceptions it
 cannot throw

---
 java/export_java.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/java/export_java.go b/java/export_java.go
index ab3e642..ef2f1f0 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -150,10 +150,26 @@ func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generato
 		if hact.Expected == nil && gen.Err == nil {
 			gen.Err = fmt.Errorf("HTTP action %q has no expected response", hact.Name)
 		}
+		if gen.ServerCode || gen.ClientCode {
+			for _, exc := range hact.Exceptions {
+				if !gen.canThrow(exc.Type) && gen.Err == nil {
+					gen.Err = fmt.Errorf("HTTP action %q has an exception that is not a structure: %q", hact.Name, exc.Type)
+				}
+			}
+		}
 	}
 	return gen
 }
 
+// a structure becomes an exception class, a ServiceException has any generated class as entity
+func (gen *Generator) canThrow(name string) bool {
+	td := gen.Model.FindType(name)
+	if td == nil || name == td.Type {
+		return false
+	}
+	return td.Type == "Struct" || gen.Config.GetBool("service-exception") && (td.Type == "Enum" || td.Type == "Union")
+}
+
 func (gen *Generator) EnsurePackageDir(pkg string) {
 	if gen.Err == nil {
 		srcpath := filepath.Join(gen.OutDir, gen.SourceDir)
-- 
2.43.0


From 15a50964745b3c067129b1b70dd0aa954c4a43f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:26 +0000
Subject: [PATCH 158/173] fix: the Java server catches an exception type once,
 whatever number of statuses it has

---
 java/java_server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/java/java_server.go b/java/java_server.go
index 476857b..13c9b24 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -323,9 +323,14 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				}
 				writer.WriteString("            throw new WebApplicationException(Response.status(_status).entity(_entity).build());\n")
 			} else {
+				caught := make(map[string]bool, 0)
 				for _, resp := range hact.Exceptions {
 					status := fmt.Sprint(exceptionStatus(resp))
 					tn, _, _ := gen.TypeName(nil, resp.Type, true)
+					if caught[tn] {
+						continue //the type does not tell which status, the first one it is
+					}
+					caught[tn] = true
 					writer.WriteString("        } catch (" + tn + " _e) {\n")
 					writer.WriteString("                throw new WebApplicationException(Response.status(" + status + ").entity(_e).build());\n")
 				}
-- 
2.43.0


From 31a2af77863a92239c140ede0e6cd32833900525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:26 +0000
Subject: [PATCH 159/173] fix: Java service code imports the classes of the
 model by name, so that one may be named like a class of java.lang

---
 java/java_client.go |  5 +++--
 java/java_server.go | 24 ++++++++++++++++++++++--
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 2b1449a..1fb9648 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -79,7 +79,8 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 	}
 
 	funcMap := template.FuncMap{
-		"openBrace": func() string { return "{" },
+		"openBrace":    func() string { return "{" },
+		"modelImports": func() string { return gen.modelImports(clientTemplate) },
 		"handlerSig": func(hact *sadl.HttpDef) string {
 			name := gen.ActionName(hact)
 			resType := gen.ResponseType(gen.ActionName(hact))
@@ -226,7 +227,7 @@ public interface ClientConfig {
 
 const clientTemplate = `
 {{if .ModelPackage}}import {{.ModelPackage}}.*;{{end}}
-import java.math.BigDecimal;
+{{modelImports}}import java.math.BigDecimal;
 import java.time.Instant;
 import java.util.*;
 import javax.ws.rs.client.Client;
diff --git a/java/java_server.go b/java/java_server.go
index 13c9b24..52421ac 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -131,7 +131,8 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 	}
 
 	funcMap := template.FuncMap{
-		"openBrace": func() string { return "{" },
+		"openBrace":    func() string { return "{" },
+		"modelImports": func() string { return gen.modelImports(resourcesTemplate) },
 		"methodPath": func(hact *sadl.HttpDef) string {
 			path := hact.Path
 			i := strings.Index(path, "?")
@@ -397,7 +398,7 @@ public class {{.MainClass}} {
 
 const resourcesTemplate = `
 {{if .ModelPackage}}import {{.ModelPackage}}.*;{{end}}
-import java.util.*;
+{{modelImports}}import java.util.*;
 import java.math.BigDecimal;
 import java.time.Instant;
 import javax.inject.Inject;
@@ -439,6 +440,25 @@ public class {{.ImplClass}} implements {{.InterfaceClass}} {
 }
 `
 
+// modelImports imports the classes of the model by name, as one may have the name of a class of java.lang or of
+// another package that is imported as a whole.
+func (gen *Generator) modelImports(template string) string {
+	if gen.ModelPackage == "" {
+		return ""
+	}
+	s := ""
+	for _, td := range gen.Model.Types {
+		name := gen.Capitalize(td.Name)
+		switch td.Type {
+		case "Struct", "Enum", "Union", "UnitValue":
+			if !strings.Contains(template, "."+name+";") {
+				s = s + "import " + gen.ModelPackage + "." + name + ";\n"
+			}
+		}
+	}
+	return s
+}
+
 func (gen *Generator) CreateRequestPojo(hact *sadl.HttpDef) {
 	if gen.Err != nil {
 		return
-- 
2.43.0


From 0a657db894c3bffe68359cd49c6cfbdd23484912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:26 +0000
Subject: [PATCH 160/173] fix: Java service code names the classes of inline
 types and the items of arrays

---
 java/java_client.go | 18 +++++++++++++++---
 java/java_server.go | 14 +++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 1fb9648..57de896 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -57,8 +57,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 	entityNameType := func(hact *sadl.HttpDef) (string, string) {
 		for _, out := range hact.Expected.Outputs {
 			if out.Header == "" {
-				tn, _, _ := gen.TypeName(nil, out.Type, true)
-				return out.Name, tn
+				return out.Name, gen.paramTypeName(gen.ResponseType(gen.ActionName(hact)), out, true)
 			}
 		}
 		return "", "void"
@@ -149,7 +148,8 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				}
 				for _, out := range hact.Expected.Outputs {
 					if out.Header != "" {
-						tn, _, _ := gen.TypeName(nil, out.Type, false)
+						tn := gen.paramTypeName(gen.ResponseType(gen.ActionName(hact)), out, false)
+						gen.checkHeaderType(out)
 						hsrc := "response.getHeaderString(\"" + out.Header + "\")"
 						osrc := fromString(tn, hsrc)
 						if osrc != hsrc {
@@ -207,6 +207,18 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 	gen.ClientData.Funcs = funcMap
 }
 
+// a response header is a string that is parsed
+func (gen *Generator) checkHeaderType(out *sadl.HttpParamSpec) {
+	td := gen.Model.FindType(out.Type)
+	if td == nil || gen.Err != nil {
+		return
+	}
+	switch td.Type {
+	case "Array", "Map", "Struct", "Union", "UnitValue", "Bytes", "Any":
+		gen.Err = fmt.Errorf("The type of the response header %q is not supported: %s", out.Header, out.Type)
+	}
+}
+
 func (gen *Generator) CreateClientConfig() {
 	if gen.Err != nil {
 		return
diff --git a/java/java_server.go b/java/java_server.go
index 52421ac..bde6a4c 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -114,8 +114,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 	entityNameType := func(hact *sadl.HttpDef) (string, string) {
 		for _, out := range hact.Expected.Outputs {
 			if out.Header == "" {
-				tn, _, _ := gen.TypeName(nil, out.Type, true)
-				return out.Name, tn
+				return out.Name, gen.paramTypeName(gen.ResponseType(gen.ActionName(hact)), out, true)
 			}
 		}
 		return "", "void"
@@ -205,7 +204,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			name := gen.ActionName(hact) //i.e. "getFoo"
 			var params []string
 			for _, in := range hact.Inputs {
-				tn, _, _ := gen.TypeName(nil, in.Type, false)
+				tn := gen.paramTypeName(reqType(name), in, false)
 				param := tn + " " + in.Name
 				if in.Query != "" {
 					param = `@QueryParam("` + in.Query + `") ` + param
@@ -440,6 +439,15 @@ public class {{.ImplClass}} implements {{.InterfaceClass}} {
 }
 `
 
+// paramTypeName is the type of a member of a request or a response: an inline type is nested in its class
+func (gen *Generator) paramTypeName(className string, param *sadl.HttpParamSpec, required bool) string {
+	tn, _, anonymous := gen.TypeName(&param.TypeSpec, param.Type, required)
+	if anonymous != nil {
+		return className + "." + gen.Capitalize(param.Name)
+	}
+	return tn
+}
+
 // modelImports imports the classes of the model by name, as one may have the name of a class of java.lang or of
 // another package that is imported as a whole.
 func (gen *Generator) modelImports(template string) string {
-- 
2.43.0


From ba19c4d45b48e98d86b74da6370213be9ec90611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:50 +0000
Subject: [PATCH 161/173] fix: the Go server has one case for an exception
 type, whatever number of statuses it has

---
 golang/golang_server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index a339883..9551470 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -108,7 +108,12 @@ func (gen *Generator) EmitServerAdaptor() {
 		},
 		"exceptions": func(hd *sadl.HttpDef) string {
 			s := ""
+			seen := make(map[string]bool, 0)
 			for _, e := range hd.Exceptions {
+				if seen[e.Type] {
+					continue //the type does not tell which status, the first one it is
+				}
+				seen[e.Type] = true
 				s = s + "\t\tcase " + gen.nativeType(e.Type) + ":\n"
 				status := e.Status
 				if status == 0 {
-- 
2.43.0


From a280725905ca6b8ebc0a66645713184743d525f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:51 +0000
Subject: [PATCH 162/173] fix: the Go client generator refuses query and header
 parameters it would send as Go values

---
 golang/golang_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 4e3eed9..af6c030 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -187,7 +187,7 @@ func (gen *Generator) notSet(sadlType string) string {
 		return "0.0"
 	case "Bool":
 		return "false"
-	case "Union":
+	case "Union", "Array", "Map", "Struct", "Bytes", "Any":
 		gen.unsupported("query and header " + bt)
 		return "nil"
 	default:
-- 
2.43.0


From 0ccc43f9e900f20fec978d4db60bc14ed195d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:41 +0000
Subject: [PATCH 163/173] fix: the HTTP trace shows no body for exceptions with
 a status that has none

---
 httptrace/export_http_examples.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index de3b7a3..b5a5951 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -156,7 +156,9 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 					if status == 0 {
 						status = 500 //the default exception
 					}
-					bodyExample = sadl.Pretty(resExample)
+					if status != 204 && status != 304 {
+						bodyExample = sadl.Pretty(resExample)
+					}
 				}
 				headers = headers + "Date: " + dateHeader() + "\n"
 				headers = fmt.Sprintf("Content-Length: %d\n", len(bodyExample)) + headers
-- 
2.43.0


From 40ca2d60cccbd80940afd353aa8096833d327ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:41 +0000
Subject: [PATCH 164/173] fix: the Go client returns the exception for a status
 that has no body

---
 golang/golang_client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index af6c030..19ef73c 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -163,6 +163,10 @@ func (gen *Generator) EmitClient() {
 				} else {
 					s = s + fmt.Sprintf("\tcase %d:\n", es.Status)
 				}
+				if (es.Status == 204 || es.Status == 304) && strings.HasPrefix(natType, "*") { //never has a body
+					s = s + "\t\treturn nil, &" + natType[1:] + "{}\n"
+					continue
+				}
 				s = s + "\t\tvar errEntity " + natType + "\n"
 				s = s + "\t\terr = json.NewDecoder(res.Body).Decode(&errEntity)\n"
 				s = s + "\t\tif err != nil {\n"
-- 
2.43.0


From 4cb11c125027bdf1faf0d504ee53e3953bbeecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:41 +0000
Subject: [PATCH 165/173] fix: the Java client throws the exception for a
 status that has no body

---
 java/java_client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/java/java_client.go b/java/java_client.go
index 57de896..aee5dc0 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -190,6 +190,12 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 					writer.WriteString("        case " + fmt.Sprint(exc.Status) + ":\n")
 				}
 				entity := "response.readEntity(" + gen.Capitalize(exc.Type) + ".class)"
+				if exc.Status == 204 || exc.Status == 304 { //never has a body
+					entity = "new " + gen.Capitalize(exc.Type) + "()"
+					if gen.UseImmutable {
+						entity = gen.Capitalize(exc.Type) + ".builder().build()"
+					}
+				}
 				if gen.Config.GetBool("service-exception") {
 					entity = "new ServiceException().entity(" + entity + ")"
 				}
-- 
2.43.0


From 78c33045756c98c092f096d68af4a472591fde18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:10 +0000
Subject: [PATCH 166/173] fix: the Go client expects no body in the answer to a
 HEAD request

---
 golang/golang_client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 19ef73c..46d1381 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -117,6 +117,9 @@ func (gen *Generator) EmitClient() {
 			//			}
 			s = s + "\t\tresponse := &" + sadl.Capitalize(hd.Name) + "Response{}\n"
 			for _, out := range hd.Expected.Outputs {
+				if out.Header == "" && hd.Method == "HEAD" {
+					continue //never has a body
+				}
 				natType := gen.nativeTypeName(&out.TypeSpec, out.Type)
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
@@ -163,7 +166,7 @@ func (gen *Generator) EmitClient() {
 				} else {
 					s = s + fmt.Sprintf("\tcase %d:\n", es.Status)
 				}
-				if (es.Status == 204 || es.Status == 304) && strings.HasPrefix(natType, "*") { //never has a body
+				if (es.Status == 204 || es.Status == 304 || hd.Method == "HEAD") && strings.HasPrefix(natType, "*") { //never has a body
 					s = s + "\t\treturn nil, &" + natType[1:] + "{}\n"
 					continue
 				}
-- 
2.43.0


From df685a749a8875bcb9d69389e87969561e22e7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:10 +0000
Subject: [PATCH 167/173] fix: the Java client expects no body in the answer to
 a HEAD request

---
 java/java_client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/java/java_client.go b/java/java_client.go
index aee5dc0..b7ee320 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -137,6 +137,9 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				writer.WriteString("            return null; //shoudn't this be void?!\n") //?
 			} else {
 				ename, etype := entityNameType(hact)
+				if etype != "void" && hact.Method == "HEAD" { //never has a body
+					etype = "void"
+				}
 				if etype != "void" {
 					entity := "response.readEntity(" + etype + ".class)"
 					if etype == "String" {
@@ -190,7 +193,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 					writer.WriteString("        case " + fmt.Sprint(exc.Status) + ":\n")
 				}
 				entity := "response.readEntity(" + gen.Capitalize(exc.Type) + ".class)"
-				if exc.Status == 204 || exc.Status == 304 { //never has a body
+				if exc.Status == 204 || exc.Status == 304 || hact.Method == "HEAD" { //never has a body
 					entity = "new " + gen.Capitalize(exc.Type) + "()"
 					if gen.UseImmutable {
 						entity = gen.Capitalize(exc.Type) + ".builder().build()"
-- 
2.43.0


From 0a2aba1826999b6e4a30c80a10402d92b580aa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:40 +0000
Subject: [PATCH 168/173] fix: generated Go clients with the runtime lost
 Timestamps in Last-Modified, Date and Expires headers

---
 golang/golang_client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 46d1381..c37a785 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -134,11 +134,13 @@ func (gen *Generator) EmitClient() {
 					switch base := gen.baseType(out.Type); base {
 					case "Timestamp":
 						parse := "ParseTimestamp"
+						date := ""
 						if gen.runtime {
 							parse = "sadl.ParseTimestamp"
 							gen.addImport("github.com/boynton/sadl")
+							date = " else if t, err := http.ParseTime(" + i + "); err == nil {\n\t\t\tresponse." + name + " = &sadl.Timestamp{Time: t}\n\t\t}" //Last-Modified, etc
 						}
-						s = s + "\t\tif ts, err := " + parse + "(" + i + "); err == nil {\n\t\t\tresponse." + name + " = &ts\n\t\t}\n"
+						s = s + "\t\tif ts, err := " + parse + "(" + i + "); err == nil {\n\t\t\tresponse." + name + " = &ts\n\t\t}" + date + "\n"
 					case "Int8", "Int16", "Int32", "Int64":
 						gen.addImport("strconv")
 						s = s + "\t\tif n, err := strconv.ParseInt(" + i + ", 10, " + base[3:] + "); err == nil {\n\t\t\tresponse." + name + " = " + natType + "(n)\n\t\t}\n"
-- 
2.43.0


From 07082d083a12e54b43406a044f67a92209002f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:40 +0000
Subject: [PATCH 169/173] fix: the HTTP trace printed a response example with
 the status of an exception example of the same name

---
 httptrace/export_http_examples.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index b5a5951..a482fe5 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -74,6 +74,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 						return "", fmt.Errorf("Example %q of %s is not an object", ex.Name, ex.Target)
 					}
 					data.res = tmp
+					data.exc = nil
 				} else {
 					for _, exc := range hdef.Exceptions {
 						if exc.Type == ex.Target {
-- 
2.43.0


From 56411ac09c6fed1a70c5a3a9d800f8687197d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:14 +0000
Subject: [PATCH 170/173] fix: the OpenAPI import lost responses and refused
 parameters that refer to the components

---
 openapi/import_openapi.go | 77 +++++++++++++++++++++++++++++++++++++--
 openapi/model.go          |  4 ++
 2 files changed, 77 insertions(+), 4 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 3af5463..67d095f 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -204,14 +204,21 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 					continue
 				}
 				if httpBindings {
+					op2, err := model.resolveOperation(op)
+					if err != nil {
+						return nil, err
+					}
 					//parameters of the path apply to all its operations
-					op2 := *op
 					for _, param := range path2.Parameters {
-						if param != nil && !hasParameter(op, param) {
-							op2.Parameters = append(op2.Parameters[:len(op2.Parameters):len(op2.Parameters)], param)
+						param, err = model.resolveParameter(param)
+						if err != nil {
+							return nil, err
+						}
+						if param != nil && !hasParameter(op2, param) {
+							op2.Parameters = append(op2.Parameters, param)
 						}
 					}
-					hact, err := convertOasPath(tmpl, &op2, method)
+					hact, err := convertOasPath(tmpl, op2, method)
 					if err != nil {
 						return nil, err
 					}
@@ -252,6 +259,68 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	return sadlModel, nil
 }
 
+// a parameter, request body, response or header can be defined once in the components, and referred to
+func resolve[T any](section string, defs map[string]*T, obj *T, ref func(obj *T) string) (*T, error) {
+	for n := 0; obj != nil && ref(obj) != ""; n++ {
+		def := defs[strings.TrimPrefix(ref(obj), "#/components/"+section+"/")]
+		if def == nil || n > len(defs) {
+			return nil, fmt.Errorf("Reference cannot be resolved: %q", ref(obj))
+		}
+		obj = def
+	}
+	return obj, nil
+}
+
+func (model *Model) resolveParameter(param *Parameter) (*Parameter, error) {
+	var defs map[string]*Parameter
+	if model.Components != nil {
+		defs = model.Components.Parameters
+	}
+	return resolve("parameters", defs, param, func(p *Parameter) string { return p.Ref })
+}
+
+// a copy of the operation, with what it refers to in place of the references
+func (model *Model) resolveOperation(op *Operation) (*Operation, error) {
+	components := model.Components
+	if components == nil {
+		components = &Components{}
+	}
+	var err error
+	op2 := *op
+	op2.Parameters = nil
+	for _, param := range op.Parameters {
+		param, err = model.resolveParameter(param)
+		if err != nil {
+			return nil, err
+		}
+		op2.Parameters = append(op2.Parameters, param)
+	}
+	op2.RequestBody, err = resolve("requestBodies", components.RequestBodies, op.RequestBody, func(b *RequestBody) string { return b.Ref })
+	if err != nil {
+		return nil, err
+	}
+	op2.Responses = make(map[string]*Response, 0)
+	for _, status := range sortedKeys(op.Responses) {
+		resp, err := resolve("responses", components.Responses, op.Responses[status], func(r *Response) string { return r.Ref })
+		if err != nil {
+			return nil, err
+		}
+		if resp != nil && len(resp.Headers) > 0 {
+			resp2 := *resp
+			resp2.Headers = make(map[string]*Header, 0)
+			for _, name := range sortedKeys(resp.Headers) {
+				resp2.Headers[name], err = resolve("headers", components.Headers, resp.Headers[name], func(h *Header) string { return h.Ref })
+				if err != nil {
+					return nil, err
+				}
+			}
+			resp = &resp2
+		}
+		op2.Responses[status] = resp
+	}
+	return &op2, nil
+}
+
 func validSadlName(name string, oasSchema *Schema) string {
 	if name == "Timestamp" {
 		if oasSchema.Type == "string" {
diff --git a/openapi/model.go b/openapi/model.go
index dcafb69..b444151 100644
--- a/openapi/model.go
+++ b/openapi/model.go
@@ -163,6 +163,7 @@ type Operation struct {
 }
 
 type Parameter struct {
+	Ref             string                 `json:"$ref,omitempty"`
 	Extensions      map[string]interface{} `json:"-"`
 	Name            string                 `json:"name,omitempty"`
 	In              string                 `json:"in,omitempty"`
@@ -180,6 +181,7 @@ type Parameter struct {
 }
 
 type Response struct {
+	Ref         string                 `json:"$ref,omitempty"`
 	Extensions  map[string]interface{} `json:"-"`
 	Description string                 `json:"description,omitempty"`
 	Headers     map[string]*Header     `json:"headers,omitempty"`
@@ -224,6 +226,7 @@ type Encoding struct {
 }
 
 type Header struct {
+	Ref         string                 `json:"$ref,omitempty"`
 	Extensions  map[string]interface{} `json:"-"`
 	Description string                 `json:"description,omitempty"`
 	Schema      *Schema                `json:"schema,omitempty"`
@@ -330,6 +333,7 @@ type OAuthFlow struct {
 type Callback map[string]*PathItem
 
 type RequestBody struct {
+	Ref         string                 `json:"$ref,omitempty"`
 	Extensions  map[string]interface{} `json:"-"`
 	Description string                 `json:"description,omitempty"`
 	Required    bool                   `json:"required,omitempty"`
-- 
2.43.0


From e95f89167258055b359c1d182bbc9e9c1e9b02a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:50 +0000
Subject: [PATCH 171/173] fix: the Swagger import lost parameters of the path
 and what refers to shared parameters and responses

---
 openapi/import_swagger.go | 62 +++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 12 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index c15398c..8eecfe0 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -50,7 +50,7 @@ func toV3(v2 *sadl.Data) (*Model, error) {
 		}
 		model.Info = toV3Info(v2.GetData("info"))
 		model.Components = toV3Components(v2)
-		model.Paths = toV3Paths(model, v2.GetData("paths"), defConsumes, defProduces)
+		model.Paths = toV3Paths(v2, defConsumes, defProduces)
 		model.Servers = toV3Servers(v2)
 		return model, nil
 	}
@@ -64,18 +64,21 @@ func toV3ExternalDocs(v2 *sadl.Data) *ExternalDocumentation {
 	}
 }
 
-func toV3Paths(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []string) map[string]*PathItem {
+func toV3Paths(root *sadl.Data, defConsumes []string, defProduces []string) map[string]*PathItem {
 	paths := make(map[string]*PathItem, 0)
-	for k, v := range v2.AsMap() {
+	for k, v := range root.GetMap("paths") {
 		vd := sadl.AsData(v)
+		operation := func(method string) *Operation {
+			return toV3Operation(root, vd.GetData(method), vd.GetArray("parameters"), defConsumes, defProduces)
+		}
 		pi := &PathItem{
-			Get:     toV3Operation(model, vd.GetData("get"), defConsumes, defProduces),
-			Delete:  toV3Operation(model, vd.GetData("delete"), defConsumes, defProduces),
-			Put:     toV3Operation(model, vd.GetData("put"), defConsumes, defProduces),
-			Post:    toV3Operation(model, vd.GetData("post"), defConsumes, defProduces),
-			Patch:   toV3Operation(model, vd.GetData("patch"), defConsumes, defProduces),
-			Head:    toV3Operation(model, vd.GetData("head"), defConsumes, defProduces),
-			Options: toV3Operation(model, vd.GetData("options"), defConsumes, defProduces),
+			Get:     operation("get"),
+			Delete:  operation("delete"),
+			Put:     operation("put"),
+			Post:    operation("post"),
+			Patch:   operation("patch"),
+			Head:    operation("head"),
+			Options: operation("options"),
 			//etc
 		}
 		paths[k] = pi
@@ -83,7 +86,24 @@ func toV3Paths(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []
 	return paths
 }
 
-func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []string) *Operation {
+// a parameter or response can be defined once for the document, and referred to. What cannot be resolved is left as it is.
+func resolveV2(root *sadl.Data, section string, v interface{}) interface{} {
+	defs := root.GetMap(section)
+	for n := 0; n <= len(defs); n++ {
+		ref := sadl.AsData(v).GetString("$ref")
+		if ref == "" {
+			break
+		}
+		def, ok := defs[strings.TrimPrefix(ref, "#/"+section+"/")]
+		if !ok {
+			break
+		}
+		v = def
+	}
+	return v
+}
+
+func toV3Operation(root *sadl.Data, v2 *sadl.Data, pathParams []interface{}, defConsumes []string, defProduces []string) *Operation {
 	if v2.IsNil() {
 		return nil
 	}
@@ -99,7 +119,23 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 		consumes = defConsumes
 	}
 	var params []*Parameter
+	var v2Params []interface{}
+	seen := make(map[[2]string]bool, 0)
 	for _, param := range v2.GetArray("parameters") {
+		param = resolveV2(root, "parameters", param)
+		paramd := sadl.AsData(param)
+		seen[[2]string{paramd.GetString("in"), paramd.GetString("name")}] = true
+		v2Params = append(v2Params, param)
+	}
+	//parameters of the path apply to all its operations
+	for _, param := range pathParams {
+		param = resolveV2(root, "parameters", param)
+		paramd := sadl.AsData(param)
+		if !seen[[2]string{paramd.GetString("in"), paramd.GetString("name")}] {
+			v2Params = append(v2Params, param)
+		}
+	}
+	for _, param := range v2Params {
 		paramd := sadl.AsData(param)
 		if paramd.GetString("in") == "body" {
 			op.RequestBody = &RequestBody{
@@ -113,6 +149,7 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 				tp = paramd.Get("schema")
 			}
 			p := &Parameter{
+				Ref:         paramd.GetString("$ref"),
 				In:          paramd.GetString("in"),
 				Name:        paramd.GetString("name"),
 				Description: paramd.GetString("description"),
@@ -132,7 +169,7 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 	if len(v2Responses) > 0 {
 		responses := make(map[string]*Response, 0)
 		for k, v := range v2Responses {
-			responses[k] = toV3Response(produces, sadl.AsData(v))
+			responses[k] = toV3Response(produces, sadl.AsData(resolveV2(root, "responses", v)))
 		}
 		op.Responses = responses
 	}
@@ -141,6 +178,7 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 
 func toV3Response(mediaTypes []string, v2 *sadl.Data) *Response {
 	return &Response{
+		Ref:         v2.GetString("$ref"),
 		Description: v2.GetString("description"),
 		Headers:     toV3Headers(v2.GetMap("headers")),
 		Content:     toV3Content(mediaTypes, v2.Get("schema")),
-- 
2.43.0


From 36c8da0f033839d069d76889fc036fa170268eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:15 +0000
Subject: [PATCH 172/173] fix: the Swagger import took form parameters for the
 body of the request

---
 openapi/import_openapi.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 67d095f..b6ba411 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -659,6 +659,8 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			spec.Header = param.Name
 		case "cookie":
 			return nil, fmt.Errorf("Cookie params NYI: %v", sadl.AsString(param))
+		default:
+			return nil, fmt.Errorf("Unsupported place for parameter %q of operation %q: %q", param.Name, op.OperationId, param.In)
 		}
 		spec.Type = oasTypeRef(param.Schema)
 		if spec.Type == "" {
-- 
2.43.0


From 682005bfd8c48ab7c65a97bffeee45e0a3fe5d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:05 +0000
Subject: [PATCH 173/173] fix: timestamps with an hour of one digit or a comma
 before the fraction were accepted

---
 golang/golang_model.go | 3 +++
 timestamp.go           | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 2671790..09fda8f 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -429,6 +429,9 @@ func ParseTimestamp(s string) (Timestamp, error) {
 			return ts, fmt.Errorf("Bad Timestamp: %q", s)
 		}
 	}
+	if !strings.HasSuffix(s, " GMT") && (strings.Index(s, ":") != 13 || strings.Contains(s, ",")) { //time.Parse also takes an hour of one digit, and a comma before the fraction
+		return Timestamp{}, fmt.Errorf("Bad Timestamp: %q", s)
+	}
 	return Timestamp{t}, nil
 }
 `
diff --git a/timestamp.go b/timestamp.go
index a458cc3..3dcfc0c 100644
--- a/timestamp.go
+++ b/timestamp.go
@@ -52,5 +52,8 @@ func ParseTimestamp(s string) (Timestamp, error) {
 			return ts, fmt.Errorf("Bad Timestamp: %q", s)
 		}
 	}
+	if strings.Index(s, ":") != 13 || strings.Contains(s, ",") { //time.Parse also takes an hour of one digit, and a comma before the fraction
+		return Timestamp{}, fmt.Errorf("Bad Timestamp: %q", s)
+	}
 	return Timestamp{t}, nil
 }
-- 
2.43.0

