From 0600b9616f55f32026fad99d146495b7b684c2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:40 +0000
Subject: [PATCH 01/85] fix: decode interval_compound types to the value type
 TypeToProto accepts

---
 types/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/types.go b/types/types.go
index 3407436..f5b59fa 100644
--- a/types/types.go
+++ b/types/types.go
@@ -308,7 +308,7 @@ func TypeFromProto(t *proto.Type) Type {
 		if err != nil {
 			panic(fmt.Sprintf("Invalid precision %v", err))
 		}
-		return &IntervalCompoundType{
+		return IntervalCompoundType{
 			nullability:      Nullability(t.IntervalCompound.Nullability),
 			typeVariationRef: t.IntervalCompound.TypeVariationReference,
 			precision:        precision,
-- 
2.43.0


From 02bb7f290d4cd5c8af66c27e3f23994095f91dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:12 +0000
Subject: [PATCH 02/85] fix: IntervalCompoundType.WithPrecision keeps the type
 variation reference

---
 types/interval_compound_type.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types/interval_compound_type.go b/types/interval_compound_type.go
index 0ff09d6..24f2660 100644
--- a/types/interval_compound_type.go
+++ b/types/interval_compound_type.go
@@ -38,8 +38,9 @@ func (m IntervalCompoundType) WithNullability(n Nullability) Type {
 
 func (m IntervalCompoundType) WithPrecision(precision TimePrecision) IntervalCompoundType {
 	return IntervalCompoundType{
-		precision:   precision,
-		nullability: m.nullability,
+		precision:        precision,
+		typeVariationRef: m.typeVariationRef,
+		nullability:      m.nullability,
 	}
 }
 
-- 
2.43.0


From 47136f5c2b31e8e267e32fe137c51c65d9ffd499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:12 +0000
Subject: [PATCH 03/85] fix: IntervalDayType.WithNullability returns a copy
 instead of changing its receiver

---
 types/interval_day_type.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types/interval_day_type.go b/types/interval_day_type.go
index 0d0369b..3bf0401 100644
--- a/types/interval_day_type.go
+++ b/types/interval_day_type.go
@@ -19,8 +19,9 @@ func (m *IntervalDayType) GetPrecisionProtoVal() int32 {
 
 func (*IntervalDayType) isRootRef() {}
 func (m *IntervalDayType) WithNullability(n Nullability) Type {
-	m.Nullability = n
-	return m
+	out := *m
+	out.Nullability = n
+	return &out
 }
 
 func (m *IntervalDayType) GetType() Type                     { return m }
-- 
2.43.0


From b880372e338a9e25ce6c94629fa0f7c4db71c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 04/85] fix: RecordType.Concat no longer shares spare capacity
 of its left input

---
 types/types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types/types.go b/types/types.go
index f5b59fa..b098c89 100644
--- a/types/types.go
+++ b/types/types.go
@@ -7,6 +7,7 @@ package types
 import (
 	"fmt"
 	"reflect"
+	"slices"
 	"strconv"
 	"strings"
 	"time"
@@ -1813,7 +1814,7 @@ func (r RecordType) Types() []Type {
 }
 
 func (r RecordType) Concat(other RecordType) RecordType {
-	return RecordType{types: append(r.Types(), other.Types()...)}
+	return RecordType{types: slices.Concat(r.types, other.types)}
 }
 
 func (d Date) ToTimeString() string {
-- 
2.43.0


From d11a3ed634a82c18ea5f81482df7e92b4e512fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 05/85] fix: GetTimeValueByPrecision truncates towards the past
 at every precision

---
 types/types.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/types/types.go b/types/types.go
index b098c89..ac95cfc 100644
--- a/types/types.go
+++ b/types/types.go
@@ -1907,21 +1907,21 @@ func GetTimeValueByPrecision(tm time.Time, precision TimePrecision) int64 {
 	case PrecisionSeconds:
 		return tm.Unix()
 	case PrecisionDeciSeconds:
-		return tm.UnixMilli() / 100
+		return tm.Unix()*1e1 + int64(tm.Nanosecond())/1e8
 	case PrecisionCentiSeconds:
-		return tm.UnixMilli() / 10
+		return tm.Unix()*1e2 + int64(tm.Nanosecond())/1e7
 	case PrecisionMilliSeconds:
 		return tm.UnixMilli()
 	case PrecisionEMinus4Seconds:
-		return tm.UnixMicro() / 100
+		return tm.Unix()*1e4 + int64(tm.Nanosecond())/1e5
 	case PrecisionEMinus5Seconds:
-		return tm.UnixMicro() / 10
+		return tm.Unix()*1e5 + int64(tm.Nanosecond())/1e4
 	case PrecisionMicroSeconds:
 		return tm.UnixMicro()
 	case PrecisionEMinus7Seconds:
-		return tm.UnixNano() / 100
+		return tm.Unix()*1e7 + int64(tm.Nanosecond())/1e2
 	case PrecisionEMinus8Seconds:
-		return tm.UnixNano() / 10
+		return tm.Unix()*1e8 + int64(tm.Nanosecond())/1e1
 	case PrecisionNanoSeconds:
 		return tm.UnixNano()
 	default:
-- 
2.43.0


From 296b533f38b71c5a76b6913815158199488f5266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 06/85] fix: SubSecondsToDuration does not overflow for deci-
 and centiseconds

---
 types/precison_timestamp_types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/precison_timestamp_types.go b/types/precison_timestamp_types.go
index ae650bf..cc0f8cc 100644
--- a/types/precison_timestamp_types.go
+++ b/types/precison_timestamp_types.go
@@ -37,9 +37,9 @@ func SubSecondsToDuration(subSeconds int64, precision TimePrecision) time.Durati
 	case PrecisionSeconds:
 		return time.Duration(subSeconds) * time.Second
 	case PrecisionDeciSeconds:
-		return time.Duration(subSeconds) * time.Second / 10
+		return time.Duration(subSeconds) * 100 * time.Millisecond
 	case PrecisionCentiSeconds:
-		return time.Duration(subSeconds) * time.Second / 100
+		return time.Duration(subSeconds) * 10 * time.Millisecond
 	case PrecisionMilliSeconds:
 		return time.Duration(subSeconds) * time.Millisecond
 	case PrecisionEMinus4Seconds:
-- 
2.43.0


From 96806a033c48a792ce747391fe13f09162d568a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:49 +0000
Subject: [PATCH 07/85] fix: evaluating a return-type expression reports errors
 instead of panicking

---
 types/type_derivation.go | 109 +++++++++++++++++++++++++++++----------
 1 file changed, 83 insertions(+), 26 deletions(-)

diff --git a/types/type_derivation.go b/types/type_derivation.go
index 3799ec1..47d2e66 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -120,36 +120,73 @@ func (b BinaryExpr) Evaluate(symbolTable map[string]any) (any, error) {
 	if err != nil {
 		return nil, err
 	}
+	if b.Op == And || b.Op == Or {
+		l, err := boolOperand(left)
+		if err != nil {
+			return nil, err
+		}
+		r, err := boolOperand(right)
+		if err != nil {
+			return nil, err
+		}
+		if b.Op == And {
+			return l && r, nil
+		}
+		return l || r, nil
+	}
+	l, err := intOperand(left)
+	if err != nil {
+		return nil, err
+	}
+	r, err := intOperand(right)
+	if err != nil {
+		return nil, err
+	}
 	switch b.Op {
 	case Plus:
-		return left.(int64) + right.(int64), nil
+		return l + r, nil
 	case Minus:
-		return left.(int64) - right.(int64), nil
+		return l - r, nil
 	case Multiply:
-		return left.(int64) * right.(int64), nil
+		return l * r, nil
 	case Divide:
-		return left.(int64) / right.(int64), nil
+		if r == 0 {
+			return nil, fmt.Errorf("division by zero in %s", b)
+		}
+		return l / r, nil
 	case LT:
-		return left.(int64) < right.(int64), nil
+		return l < r, nil
 	case LTE:
-		return left.(int64) <= right.(int64), nil
+		return l <= r, nil
 	case GT:
-		return left.(int64) > right.(int64), nil
+		return l > r, nil
 	case GTE:
-		return left.(int64) >= right.(int64), nil
+		return l >= r, nil
 	case EQ:
-		return left.(int64) == right.(int64), nil
+		return l == r, nil
 	case NEQ:
-		return left.(int64) != right.(int64), nil
-	case And:
-		return left.(bool) && right.(bool), nil
-	case Or:
-		return left.(bool) || right.(bool), nil
+		return l != r, nil
 	default:
 		panic("Invalid binary operator")
 	}
 }
 
+func intOperand(v any) (int64, error) {
+	i, ok := v.(int64)
+	if !ok {
+		return 0, fmt.Errorf("expected an integer operand, got %T", v)
+	}
+	return i, nil
+}
+
+func boolOperand(v any) (bool, error) {
+	b, ok := v.(bool)
+	if !ok {
+		return false, fmt.Errorf("expected a boolean operand, got %T", v)
+	}
+	return b, nil
+}
+
 func (b BinaryExpr) String() string {
 	return fmt.Sprintf("(%s %s %s)", b.Left, b.Op, b.Right)
 }
@@ -173,7 +210,11 @@ func (i IfExpr) Evaluate(symbolTable map[string]any) (any, error) {
 	if err != nil {
 		return nil, err
 	}
-	if condition.(bool) {
+	cond, err := boolOperand(condition)
+	if err != nil {
+		return nil, err
+	}
+	if cond {
 		return i.Then.Evaluate(symbolTable)
 	}
 	return i.Else.Evaluate(symbolTable)
@@ -192,7 +233,11 @@ func (n NotExpr) Evaluate(symbolTable map[string]any) (any, error) {
 	if err != nil {
 		return nil, err
 	}
-	return !result.(bool), nil
+	value, err := boolOperand(result)
+	if err != nil {
+		return nil, err
+	}
+	return !value, nil
 }
 
 type FunctionCallExpr struct {
@@ -215,26 +260,38 @@ func (f FunctionCallExpr) String() string {
 }
 
 func (f FunctionCallExpr) Evaluate(symbolTable map[string]any) (any, error) {
-	args := make([]any, len(f.Args))
+	var arity int
+	switch f.Name {
+	case "abs":
+		arity = 1
+	case "max", "min":
+		arity = 2
+	default:
+		return nil, fmt.Errorf("unknown function %s", f.Name)
+	}
+	if len(f.Args) != arity {
+		return nil, fmt.Errorf("function %s expects %d arguments, got %d", f.Name, arity, len(f.Args))
+	}
+	args := make([]int64, len(f.Args))
 	for i, arg := range f.Args {
 		result, err := arg.Evaluate(symbolTable)
 		if err != nil {
 			return nil, err
 		}
-		args[i] = result
+		if args[i], err = intOperand(result); err != nil {
+			return nil, err
+		}
 	}
 	switch f.Name {
-	case "abs":
-		if args[0].(int64) < 0 {
-			return -args[0].(int64), nil
-		}
-		return args[0].(int64), nil
 	case "max":
-		return max(args[0].(int64), args[1].(int64)), nil
+		return max(args[0], args[1]), nil
 	case "min":
-		return min(args[0].(int64), args[1].(int64)), nil
+		return min(args[0], args[1]), nil
 	default:
-		return nil, fmt.Errorf("unknown function %s", f.Name)
+		if args[0] < 0 {
+			return -args[0], nil
+		}
+		return args[0], nil
 	}
 }
 
-- 
2.43.0


From ee1a87f0eef724e8c1a2906ba0db96d6c420afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:16 +0000
Subject: [PATCH 08/85] fix: time precisions take part in return-type
 expressions as integers

---
 types/type_derivation.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/types/type_derivation.go b/types/type_derivation.go
index 47d2e66..089234f 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -376,10 +376,14 @@ func buildTypeParametersNameValueMap(funcParameters []FuncDefArgType, argumentTy
 			for j, param := range paramNames {
 				if intParam, ok := param.(*integer_parameters.VariableIntParam); ok {
 					name := string(*intParam)
-					if existingValue, ok := symbolTable[name]; ok && existingValue != paramValues[j] {
-						return nil, fmt.Errorf("sync parameters %s has conflicting values: %v and %v", name, existingValue, paramValues[j])
+					value := paramValues[j]
+					if precision, ok := value.(TimePrecision); ok {
+						value = int64(precision)
 					}
-					symbolTable[name] = paramValues[j]
+					if existingValue, ok := symbolTable[name]; ok && existingValue != value {
+						return nil, fmt.Errorf("sync parameters %s has conflicting values: %v and %v", name, existingValue, value)
+					}
+					symbolTable[name] = value
 					continue
 				}
 			}
-- 
2.43.0


From 89764db86aedd1930e7363a1f2fb27587afa230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:22 +0000
Subject: [PATCH 09/85] fix: derived type parameters outside the 32-bit range
 are an error

---
 types/parameterized_decimal_type.go              |  5 ++++-
 types/parameterized_single_integer_param_type.go | 11 +++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/types/parameterized_decimal_type.go b/types/parameterized_decimal_type.go
index a579e54..10ff973 100644
--- a/types/parameterized_decimal_type.go
+++ b/types/parameterized_decimal_type.go
@@ -89,9 +89,12 @@ func (m *ParameterizedDecimalType) WithParameters(params []interface{}) (Type, e
 	}
 	if precision, ok := params[0].(int64); ok {
 		if scale, ok := params[1].(int64); ok {
+			if int64(int32(precision)) != precision || int64(int32(scale)) != scale {
+				return nil, fmt.Errorf("decimal precision %d or scale %d is out of range", precision, scale)
+			}
 			return &DecimalType{Nullability: m.Nullability, Precision: int32(precision), Scale: int32(scale)}, nil
 		}
 		return nil, fmt.Errorf("scale must be an integer")
 	}
-	return nil, fmt.Errorf("precision must be an integer, but got %t", params[0])
+	return nil, fmt.Errorf("precision must be an integer, but got %T", params[0])
 }
diff --git a/types/parameterized_single_integer_param_type.go b/types/parameterized_single_integer_param_type.go
index 6b2c4bc..b52bc2e 100644
--- a/types/parameterized_single_integer_param_type.go
+++ b/types/parameterized_single_integer_param_type.go
@@ -114,13 +114,16 @@ func (m *parameterizedTypeSingleIntegerParam[T]) WithParameters(params []interfa
 		}
 		return nil, fmt.Errorf("type must have 1 parameter")
 	}
-	switch params[0].(type) {
+	switch p := params[0].(type) {
 	case int64:
-		return m.getNewInstance().GetReturnType(int32(params[0].(int64)), m.Nullability), nil
+		if int64(int32(p)) != p {
+			return nil, fmt.Errorf("type parameter %d is out of range", p)
+		}
+		return m.getNewInstance().GetReturnType(int32(p), m.Nullability), nil
 	case int32:
-		return m.getNewInstance().GetReturnType(params[0].(int32), m.Nullability), nil
+		return m.getNewInstance().GetReturnType(p, m.Nullability), nil
 	case TimePrecision:
-		return m.getNewInstance().GetReturnType(int32(params[0].(TimePrecision)), m.Nullability), nil
+		return m.getNewInstance().GetReturnType(int32(p), m.Nullability), nil
 	default:
 		return nil, fmt.Errorf("unknown parameter type for integer parameter")
 	}
-- 
2.43.0


From becb13a54c0667fef16d877378b1b6c302d17453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 10/85] fix: sort type variation and function declarations by
 their own anchors

---
 extensions/extension_mgr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 7eaa25a..3cb8071 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -422,7 +422,7 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 
 	typeDecls := decls[typesCount:]
 	sort.Slice(typeDecls, func(i, j int) bool {
-		return decls[i].GetExtensionTypeVariation().TypeVariationAnchor < decls[j].GetExtensionTypeVariation().TypeVariationAnchor
+		return typeDecls[i].GetExtensionTypeVariation().TypeVariationAnchor < typeDecls[j].GetExtensionTypeVariation().TypeVariationAnchor
 	})
 
 	typeVarCount := len(decls)
@@ -440,7 +440,7 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 
 	typeVarDecls := decls[typeVarCount:]
 	sort.Slice(typeVarDecls, func(i, j int) bool {
-		return decls[i].GetExtensionFunction().GetFunctionAnchor() < decls[j].GetExtensionFunction().GetFunctionAnchor()
+		return typeVarDecls[i].GetExtensionFunction().GetFunctionAnchor() < typeVarDecls[j].GetExtensionFunction().GetFunctionAnchor()
 	})
 
 	return urns, decls
-- 
2.43.0


From e08288a3d5bc7e24be5c2cf55ac2705367746182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 11/85] fix: anchors allocated after decoding a plan do not
 collide with its anchors

---
 extensions/extension_mgr.go | 45 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 3cb8071..b88d877 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -511,11 +511,8 @@ func (e *set) DecodeType(anchor uint32) (id TypeID, ok bool) {
 func (e *set) GetTypeAnchor(id TypeID) uint32 {
 	a, ok := e.types[id]
 	if !ok {
-		_, err := e.addOrGetURN(id.URN)
-		if err != nil {
-			panic(err)
-		}
-		a = uint32(len(e.types)) + 1
+		e.addOrGetURN(id.URN)
+		a = nextAnchor(e.typesMap)
 		e.encodeType(a, id)
 	}
 	return a
@@ -524,11 +521,8 @@ func (e *set) GetTypeAnchor(id TypeID) uint32 {
 func (e *set) GetFuncAnchor(id FunctionID) uint32 {
 	a, ok := e.funcs[id]
 	if !ok {
-		_, err := e.addOrGetURN(id.URN)
-		if err != nil {
-			panic(err)
-		}
-		a = uint32(len(e.funcs)) + 1
+		e.addOrGetURN(id.URN)
+		a = nextAnchor(e.funcMap)
 		e.encodeFunc(a, id)
 	}
 	return a
@@ -537,14 +531,11 @@ func (e *set) GetFuncAnchor(id FunctionID) uint32 {
 func (e *set) GetTypeVariationAnchor(id TypeVariationID) uint32 {
 	a, ok := e.typeVariations[id]
 	if !ok {
-		_, err := e.addOrGetURN(id.URN)
-		if err != nil {
-			panic(err)
-		}
+		e.addOrGetURN(id.URN)
 		// add 1 to the length to avoid an anchor of 0
 		// so that it's easier to tell when there is no
 		// type variation.
-		a = uint32(len(e.typeVariations)) + 1
+		a = nextAnchor(e.typeVariationMap)
 		e.encodeTypeVariation(a, id)
 	}
 	return a
@@ -574,19 +565,27 @@ func (e *set) FindURN(urn string) (uint32, bool) {
 	return 0, false
 }
 
-func (e *set) addOrGetURN(urn string) (uint32, error) {
+func (e *set) addOrGetURN(urn string) uint32 {
 	for k, v := range e.urns {
 		if v == urn {
-			return k, nil
+			return k
 		}
 	}
-	sz := uint32(len(e.urns)) + 1
-	if _, ok := e.urns[sz]; ok {
-		return 0, fmt.Errorf("%w: URN anchor %d already exists", substraitgo.ErrKeyExists, sz)
-	}
+	anchor := nextAnchor(e.urns)
+	e.urns[anchor] = urn
+	return anchor
+}
 
-	e.urns[sz] = urn
-	return sz, nil
+// nextAnchor returns an anchor that is not used in m yet. Decoded plans may
+// use any anchors, so the number of entries alone does not determine one.
+func nextAnchor[T any](m map[uint32]T) uint32 {
+	anchor := uint32(len(m)) + 1
+	for {
+		if _, used := m[anchor]; !used && anchor != 0 {
+			return anchor
+		}
+		anchor++
+	}
 }
 
 type TopLevel interface {
-- 
2.43.0


From ca041685da2b606949ea224e0be015df47c96684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 12/85] fix: a URN with several anchors is always referenced by
 the same one

---
 extensions/extension_mgr.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index b88d877..49900ec 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -380,7 +380,6 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 
 	urns := make([]*extensions.SimpleExtensionURN, 0, len(e.urns))
 	for anchor, urn := range e.urns {
-		urnBackRef[urn] = anchor
 		urns = append(urns, &extensions.SimpleExtensionURN{
 			ExtensionUrnAnchor: anchor,
 			Urn:                urn,
@@ -389,6 +388,12 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 
 	// Sort URN extensions by the anchor for consistent output
 	sort.Slice(urns, func(i, j int) bool { return urns[i].ExtensionUrnAnchor < urns[j].ExtensionUrnAnchor })
+	for _, urn := range urns {
+		// a URN that has several anchors is referenced by the smallest one
+		if _, ok := urnBackRef[urn.Urn]; !ok {
+			urnBackRef[urn.Urn] = urn.ExtensionUrnAnchor
+		}
+	}
 
 	decls := make([]*extensions.SimpleExtensionDeclaration, 0, len(e.types)+len(e.typeVariations)+len(e.funcs))
 	for id, anchor := range e.types {
@@ -557,19 +562,19 @@ func (e *set) encodeFunc(anchor uint32, id FunctionID) {
 }
 
 func (e *set) FindURN(urn string) (uint32, bool) {
+	var anchor uint32
+	found := false
 	for k, v := range e.urns {
-		if v == urn {
-			return k, true
+		if v == urn && (!found || k < anchor) {
+			anchor, found = k, true
 		}
 	}
-	return 0, false
+	return anchor, found
 }
 
 func (e *set) addOrGetURN(urn string) uint32 {
-	for k, v := range e.urns {
-		if v == urn {
-			return k
-		}
+	if anchor, ok := e.FindURN(urn); ok {
+		return anchor
 	}
 	anchor := nextAnchor(e.urns)
 	e.urns[anchor] = urn
-- 
2.43.0


From 0cc42851779845c0a805bba44cd8c21db23e1ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:52 +0000
Subject: [PATCH 13/85] fix: a plain function name resolves exactly when one
 overload of its kind has it

---
 extensions/extension_mgr.go | 57 +++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 49900ec..2cf6290 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -101,7 +101,11 @@ func loadExtensionFile(collection *Collection, substraitFS embed.FS, ent fs.DirE
 type Collection struct {
 	urnSet map[string]struct{}
 
-	simpleNameMap map[FunctionID]string
+	// plain function name to compound name, per function kind; the compound
+	// name is empty when several overloads share the plain name
+	scalarNames    map[FunctionID]string
+	aggregateNames map[FunctionID]string
+	windowNames    map[FunctionID]string
 
 	scalarMap        map[FunctionID]*ScalarFunctionVariant
 	aggregateMap     map[FunctionID]*AggregateFunctionVariant
@@ -154,39 +158,41 @@ type extFn[T variants] interface {
 	GetVariants(urn string) []T
 }
 
-func addToMaps[T variants](id FunctionID, fn extFn[T], m map[FunctionID]T, simpleMap map[string]string) {
-	variants := fn.GetVariants(id.URN)
-	for _, v := range variants {
-		id.Name = v.CompoundName()
+func addToMaps[T variants](id FunctionID, fn extFn[T], m map[FunctionID]T, simpleNames map[FunctionID]string) {
+	for _, v := range fn.GetVariants(id.URN) {
+		compound := v.CompoundName()
+		id.Name = compound
 		m[id] = v
-	}
 
-	if len(variants) == 1 {
-		v := variants[0]
-		if _, ok := simpleMap[v.Name()]; ok {
-			delete(simpleMap, v.Name())
-		} else {
-			simpleMap[v.Name()] = v.CompoundName()
+		// if there is only one implementation for a given function
+		// it should be findable by its simple name in addition to the
+		// compound name.
+		id.Name = v.Name()
+		if existing, ok := simpleNames[id]; ok && existing != compound {
+			compound = ""
 		}
+		simpleNames[id] = compound
 	}
 }
 
 func (c *Collection) GetScalarFunc(id FunctionID) (*ScalarFunctionVariant, bool) {
-	return checkMaps(id, c.scalarMap, c.simpleNameMap)
+	return checkMaps(id, c.scalarMap, c.scalarNames)
 }
 
 func (c *Collection) GetAggregateFunc(id FunctionID) (*AggregateFunctionVariant, bool) {
-	return checkMaps(id, c.aggregateMap, c.simpleNameMap)
+	return checkMaps(id, c.aggregateMap, c.aggregateNames)
 }
 
 func (c *Collection) GetWindowFunc(id FunctionID) (*WindowFunctionVariant, bool) {
-	return checkMaps(id, c.windowMap, c.simpleNameMap)
+	return checkMaps(id, c.windowMap, c.windowNames)
 }
 
 func (c *Collection) init() {
 	if c.urnSet == nil {
 		c.urnSet = make(map[string]struct{})
-		c.simpleNameMap = make(map[FunctionID]string)
+		c.scalarNames = make(map[FunctionID]string)
+		c.aggregateNames = make(map[FunctionID]string)
+		c.windowNames = make(map[FunctionID]string)
 		c.scalarMap = make(map[FunctionID]*ScalarFunctionVariant)
 		c.aggregateMap = make(map[FunctionID]*AggregateFunctionVariant)
 		c.windowMap = make(map[FunctionID]*WindowFunctionVariant)
@@ -249,30 +255,25 @@ func (c *Collection) Load(r io.Reader) error {
 
 	id := FunctionID{URN: urn}
 
-	// if there is only one implementation for a given function
-	// it should be findable by its simple name in addition to the
-	// compound name.
-	simpleNames := make(map[string]string)
-
 	for _, f := range file.ScalarFunctions {
 		if err := defaults.Set(&f); err != nil {
 			return fmt.Errorf("failure setting defaults for scalar functions: %w", err)
 		}
-		addToMaps[*ScalarFunctionVariant](id, &f, c.scalarMap, simpleNames)
+		addToMaps[*ScalarFunctionVariant](id, &f, c.scalarMap, c.scalarNames)
 	}
 
 	for _, f := range file.AggregateFunctions {
 		if err := defaults.Set(&f); err != nil {
 			return fmt.Errorf("failure setting defaults for aggregate functions: %w", err)
 		}
-		addToMaps[*AggregateFunctionVariant](id, &f, c.aggregateMap, simpleNames)
+		addToMaps[*AggregateFunctionVariant](id, &f, c.aggregateMap, c.aggregateNames)
 	}
 
 	for _, f := range file.WindowFunctions {
 		if err := defaults.Set(&f); err != nil {
 			return fmt.Errorf("failure setting defaults for window functions: %w", err)
 		}
-		addToMaps[*WindowFunctionVariant](id, &f, c.windowMap, simpleNames)
+		addToMaps[*WindowFunctionVariant](id, &f, c.windowMap, c.windowNames)
 	}
 
 	// Aggregate functions can be used as Window Functions
@@ -295,13 +296,7 @@ func (c *Collection) Load(r io.Reader) error {
 		if err := defaults.Set(&wf); err != nil {
 			return fmt.Errorf("failure setting defaults for window functions: %w", err)
 		}
-		addToMaps[*WindowFunctionVariant](id, &wf, c.windowMap, simpleNames)
-	}
-
-	// add simple name aliases
-	for k, v := range simpleNames {
-		id.Name = k
-		c.simpleNameMap[id] = v
+		addToMaps[*WindowFunctionVariant](id, &wf, c.windowMap, c.windowNames)
 	}
 
 	return nil
-- 
2.43.0


From 4ecfb8661d30ae6ed898293b0fb10e7c4230e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 14/85] fix: a declared window function is not replaced by the
 aggregate of the same signature

---
 extensions/extension_mgr.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 2cf6290..a794333 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -278,13 +278,18 @@ func (c *Collection) Load(r io.Reader) error {
 
 	// Aggregate functions can be used as Window Functions
 	for _, f := range file.AggregateFunctions {
-		// Convert each aggregate implementation to a window implementation
-		windowImpls := make([]WindowFunctionImpl, len(f.Impls))
-		for i, aggImpl := range f.Impls {
-			windowImpls[i] = WindowFunctionImpl{
-				AggregateFunctionImpl: aggImpl,
-				WindowType:            StreamingWindow, // Set window type to STREAMING
+		// Convert each aggregate implementation to a window implementation,
+		// unless the file declares that window function itself
+		windowImpls := make([]WindowFunctionImpl, 0, len(f.Impls))
+		for i, v := range f.GetVariants(urn) {
+			id.Name = v.CompoundName()
+			if _, ok := c.windowMap[id]; ok {
+				continue
 			}
+			windowImpls = append(windowImpls, WindowFunctionImpl{
+				AggregateFunctionImpl: f.Impls[i],
+				WindowType:            StreamingWindow, // Set window type to STREAMING
+			})
 		}
 
 		wf := WindowFunction{
-- 
2.43.0


From e3bd336f74ffb4c0a0cc8dcaca523492aa211108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:39 +0000
Subject: [PATCH 15/85] fix: match variadic arguments by their position after
 the fixed ones

---
 extensions/simple_extension.go |  4 +++-
 extensions/variants.go         | 21 ++++++++++++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/extensions/simple_extension.go b/extensions/simple_extension.go
index 5a4a259..a677b52 100644
--- a/extensions/simple_extension.go
+++ b/extensions/simple_extension.go
@@ -224,8 +224,10 @@ func (v *VariadicBehavior) IsValidArgumentCount(count int) bool {
 	return v != nil && count >= v.Min && (count <= v.Max || v.Max == 0)
 }
 
+// IsValidArgumentPosition returns whether there can be a variadic argument at
+// the given index, counted from the first variadic argument.
 func (v *VariadicBehavior) IsValidArgumentPosition(index int) bool {
-	return v != nil && index >= 0 && (index <= v.Max || v.Max == 0)
+	return v != nil && index >= 0 && (index < v.Max || v.Max == 0)
 }
 
 type Function interface {
diff --git a/extensions/variants.go b/extensions/variants.go
index e8cb077..6e583b6 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -84,7 +84,7 @@ func validateType(funcParameter FuncParameter, actual types.Type, idx int, nullH
 //	registry: the Set of extensions to look up/add user defined types to
 func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, returnTypeExpr types.FuncDefArgType,
 	funcParameters FuncParameterList, variadic *VariadicBehavior, argumentTypes []types.Type, registry Set) (types.Type, error) {
-	if variadic != nil {
+	if variadic != nil && len(funcParameters) > 0 {
 		numVariadicArgs := len(argumentTypes) - (len(funcParameters) - 1)
 		if numVariadicArgs < 0 {
 			return nil, fmt.Errorf("%w: mismatch in number of arguments provided. got %d, expected at least %d",
@@ -163,10 +163,15 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 }
 
 func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameterList, variadicBehavior *VariadicBehavior, actualTypes []types.Type) (bool, error) {
-	if variadicBehavior == nil && len(actualTypes) != len(paramTypeList) {
-		return false, nil
-	} else if variadicBehavior != nil {
+	if variadicBehavior == nil || len(paramTypeList) == 0 {
+		if len(actualTypes) != len(paramTypeList) {
+			return false, nil
+		}
+	} else {
 		numNonVariadicArgs := len(paramTypeList) - 1
+		if len(actualTypes) < numNonVariadicArgs {
+			return false, nil
+		}
 		if !validateVariadicBehaviorForMatch(variadicBehavior, actualTypes[numNonVariadicArgs:]) {
 			return false, nil
 		}
@@ -209,9 +214,11 @@ func matchArgumentAt(actualType types.Type, argPos int, nullability NullabilityH
 
 func matchArgumentAtCommon(actualType types.Type, argPos int, nullability NullabilityHandling, funcDefArgList []types.FuncDefArgType, variadicBehavior *VariadicBehavior) (bool, error) {
 	// check if argument out of range
-	if variadicBehavior == nil && argPos >= len(funcDefArgList) {
-		return false, nil
-	} else if variadicBehavior != nil && !variadicBehavior.IsValidArgumentPosition(argPos) {
+	if variadicBehavior == nil || len(funcDefArgList) == 0 {
+		if argPos >= len(funcDefArgList) {
+			return false, nil
+		}
+	} else if variadicPos := argPos - (len(funcDefArgList) - 1); variadicPos >= 0 && !variadicBehavior.IsValidArgumentPosition(variadicPos) {
 		// this argument position can't be more than the max allowed by the variadic behavior
 		return false, nil
 	}
-- 
2.43.0


From e647b61c91830c7952c8920b5a3f0b40b40ae71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 16/85] fix: consistency of variadic arguments covers the ones
 below the minimum count

---
 extensions/variants.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 6e583b6..5d09f37 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -250,8 +250,7 @@ func validateVariadicBehaviorForMatch(variadicBehavior *VariadicBehavior, actual
 	// verify consistency of variadic behavior
 	if variadicBehavior.ParameterConsistency == ConsistentParams {
 		// all concrete types must be equal for all variable arguments
-		firstVariadicArgIdx := max(variadicBehavior.Min-1, 0)
-		for i := firstVariadicArgIdx; i < len(actualTypes)-1; i++ {
+		for i := 0; i < len(actualTypes)-1; i++ {
 			if !actualTypes[i].Equals(actualTypes[i+1].WithNullability(actualTypes[i].GetNullability())) {
 				return false
 			}
-- 
2.43.0


From 4d340d7d27c95bd74c53d66557d9604bdfb8253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 17/85] fix: integer parameters shared between arguments are
 compared in nested types too

---
 extensions/variants.go                   |  4 +
 types/parameterized_user_defined_type.go |  4 +-
 types/type_derivation.go                 | 95 +++++++++++++++++++-----
 3 files changed, 83 insertions(+), 20 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 5d09f37..49710dd 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -668,6 +668,10 @@ func getLeafParameterizedParams(abstractTypes interface{}) []string {
 	if leaf, ok := abstractTypes.(integer_parameters.IntegerParameter); ok {
 		return []string{leaf.String()}
 	}
+	// a type argument of a user-defined type stands for its type
+	if udtParam, ok := abstractTypes.(*types.DataTypeUDTParam); ok {
+		return getLeafParameterizedParams(udtParam.Type)
+	}
 	// if it is not a leaf type recurse
 	if pat, ok := abstractTypes.(types.FuncDefArgType); ok {
 		var outLeafParams []string
diff --git a/types/parameterized_user_defined_type.go b/types/parameterized_user_defined_type.go
index 1c68a20..91aecfc 100644
--- a/types/parameterized_user_defined_type.go
+++ b/types/parameterized_user_defined_type.go
@@ -134,8 +134,8 @@ func (m *ParameterizedUserDefinedType) String() string {
 
 func (m *ParameterizedUserDefinedType) HasParameterizedParam() bool {
 	for _, typ := range m.TypeParameters {
-		if param, ok := typ.(*DataTypeUDTParam); ok {
-			return param.Type.HasParameterizedParam()
+		if param, ok := typ.(*DataTypeUDTParam); ok && param.Type.HasParameterizedParam() {
+			return true
 		}
 	}
 	return false
diff --git a/types/type_derivation.go b/types/type_derivation.go
index 089234f..72379e7 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -367,29 +367,88 @@ type SymbolInfo struct {
 func buildTypeParametersNameValueMap(funcParameters []FuncDefArgType, argumentTypes []Type) (map[string]any, error) {
 	symbolTable := make(map[string]any)
 	for i, p := range funcParameters {
-		paramNames := p.GetParameterizedParams()
-		if len(paramNames) > 0 {
-			paramValues := argumentTypes[i].GetParameters()
-			if len(paramNames) != len(paramValues) {
-				return nil, fmt.Errorf("function parameter %s has %d parameters, but %d were provided", p.String(), len(paramNames), len(paramValues))
+		// the last parameter of a variadic function may have no argument
+		if i >= len(argumentTypes) {
+			break
+		}
+		if err := bindIntegerParameters(p, argumentTypes[i], symbolTable); err != nil {
+			return nil, err
+		}
+	}
+	return symbolTable, nil
+}
+
+// bindIntegerParameters adds the values that the integer parameters of p have
+// in argType to the symbol table, including those of nested types.
+func bindIntegerParameters(p FuncDefArgType, argType Type, symbolTable map[string]any) error {
+	if !p.HasParameterizedParam() {
+		return nil
+	}
+	if components := componentTypes(p); components != nil {
+		values := argType.GetParameters()
+		if len(components) != len(values) {
+			return fmt.Errorf("function parameter %s has %d parameters, but %d were provided", p.String(), len(components), len(values))
+		}
+		for i, component := range components {
+			value := values[i]
+			if dataParam, ok := value.(*DataTypeParameter); ok {
+				value = dataParam.Type
 			}
-			for j, param := range paramNames {
-				if intParam, ok := param.(*integer_parameters.VariableIntParam); ok {
-					name := string(*intParam)
-					value := paramValues[j]
-					if precision, ok := value.(TimePrecision); ok {
-						value = int64(precision)
-					}
-					if existingValue, ok := symbolTable[name]; ok && existingValue != value {
-						return nil, fmt.Errorf("sync parameters %s has conflicting values: %v and %v", name, existingValue, value)
-					}
-					symbolTable[name] = value
-					continue
+			if typ, ok := value.(Type); ok && component != nil {
+				if err := bindIntegerParameters(component, typ, symbolTable); err != nil {
+					return err
 				}
 			}
 		}
+		return nil
 	}
-	return symbolTable, nil
+
+	paramNames := p.GetParameterizedParams()
+	paramValues := argType.GetParameters()
+	if len(paramNames) != len(paramValues) {
+		return fmt.Errorf("function parameter %s has %d parameters, but %d were provided", p.String(), len(paramNames), len(paramValues))
+	}
+	for j, param := range paramNames {
+		if intParam, ok := param.(*integer_parameters.VariableIntParam); ok {
+			name := string(*intParam)
+			value := paramValues[j]
+			if precision, ok := value.(TimePrecision); ok {
+				value = int64(precision)
+			}
+			if existingValue, ok := symbolTable[name]; ok && existingValue != value {
+				return fmt.Errorf("sync parameters %s has conflicting values: %v and %v", name, existingValue, value)
+			}
+			symbolTable[name] = value
+		}
+	}
+	return nil
+}
+
+// componentTypes returns the types that p is composed of in the order of the
+// parameters of a concrete type, with nil for a component that is not a type.
+// It returns nil for a type that is not composed of other types.
+func componentTypes(p FuncDefArgType) []FuncDefArgType {
+	switch p := p.(type) {
+	case *ParameterizedListType:
+		return []FuncDefArgType{p.Type}
+	case *ParameterizedMapType:
+		return []FuncDefArgType{p.Key, p.Value}
+	case *ParameterizedStructType:
+		return p.Types
+	case *ParameterizedFuncType:
+		components := make([]FuncDefArgType, 0, len(p.Parameters)+1)
+		components = append(components, p.Parameters...)
+		return append(components, p.Return)
+	case *ParameterizedUserDefinedType:
+		components := make([]FuncDefArgType, len(p.TypeParameters))
+		for i, param := range p.TypeParameters {
+			if dataParam, ok := param.(*DataTypeUDTParam); ok {
+				components[i] = dataParam.Type
+			}
+		}
+		return components
+	}
+	return nil
 }
 
 func (m *OutputDerivation) ReturnType(funcParameters []FuncDefArgType, argumentTypes []Type) (Type, error) {
-- 
2.43.0


From a04c8d8e73c1af2985ee9474736f594e964257e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 18/85] fix: integer parameters of user-defined types match
 without truncation

---
 types/parameterized_user_defined_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/parameterized_user_defined_type.go b/types/parameterized_user_defined_type.go
index 91aecfc..637744c 100644
--- a/types/parameterized_user_defined_type.go
+++ b/types/parameterized_user_defined_type.go
@@ -69,7 +69,7 @@ func (i *IntegerUDTParam) toTypeParam() (TypeParam, error) {
 
 func (i *IntegerUDTParam) MatchWithoutNullability(param TypeParam) bool {
 	if intParam, ok := param.(IntegerParameter); ok {
-		return i.Integer == int32(intParam)
+		return IntegerParameter(i.Integer) == intParam
 	}
 	return false
 }
-- 
2.43.0


From dcbc51bcb750cf0dd0ea7384403dfd0d880507db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:41 +0000
Subject: [PATCH 19/85] fix: functions with shared integer parameters still
 bind each any type once

---
 extensions/variants.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 49710dd..d41a9d9 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -191,8 +191,8 @@ func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameter
 			return false, nil
 		}
 	}
-	if HasSyncParams(funcDefArgList) {
-		return types.AreSyncTypeParametersMatching(funcDefArgList, actualTypes), nil
+	if HasSyncParams(funcDefArgList) && !types.AreSyncTypeParametersMatching(funcDefArgList, actualTypes) {
+		return false, nil
 	}
 
 	if err := ValidateConstrainedAnyTypeConsistency(funcDefArgList, actualTypes, variadicBehavior); err != nil {
-- 
2.43.0


From b85d71846d429713556924c64b12cbcdf62c355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:47 +0000
Subject: [PATCH 20/85] fix: mirrored nullability takes every variadic argument
 into account

---
 extensions/variants.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index d41a9d9..c897830 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -111,8 +111,8 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 		allNonNull = allNonNull && nonNull
 	}
 
-	// validate variadic argument consistency
-	if variadic != nil && len(argumentTypes) > len(funcParameters) && variadic.ParameterConsistency == ConsistentParams {
+	// validate the remaining variadic arguments
+	if variadic != nil && len(funcParameters) > 0 && len(argumentTypes) > len(funcParameters) {
 		nparams := len(funcParameters)
 		lastParam := funcParameters[nparams-1]
 		for i, actual := range argumentTypes[nparams:] {
-- 
2.43.0


From 4865ed084cd99cacee1b514163dac9234222be2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 21/85] fix: functions that declare no nullability handling
 match as mirror

---
 extensions/variants.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index c897830..266d32a 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -234,7 +234,8 @@ func matchArgumentAtCommon(actualType types.Type, argPos int, nullability Nullab
 	switch nullability {
 	case DiscreteNullability:
 		return funcDefArg.MatchWithNullability(actualType), nil
-	case MirrorNullability, DeclaredOutputNullability:
+	case MirrorNullability, DeclaredOutputNullability, "":
+		// mirror is the default of functions that declare no handling
 		return funcDefArg.MatchWithoutNullability(actualType), nil
 	}
 	// unreachable case
-- 
2.43.0


From ed53fd8445115bee92c0617d99824e9b723ad725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 22/85] fix: any types within function and user-defined types
 are bound once too

---
 extensions/variants.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/extensions/variants.go b/extensions/variants.go
index 266d32a..8a8c0dd 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -743,6 +743,29 @@ func validateAnyTypeBinding(paramType types.FuncDefArgType, argType types.Type,
 				}
 			}
 		}
+	case *types.ParameterizedFuncType:
+		if funcType, ok := argType.(*types.FuncType); ok && len(funcType.ParameterTypes) == len(p.Parameters) {
+			for i, paramType := range p.Parameters {
+				if err := validateAnyTypeBinding(paramType, funcType.ParameterTypes[i], bindings); err != nil {
+					return err
+				}
+			}
+			return validateAnyTypeBinding(p.Return, funcType.ReturnType, bindings)
+		}
+	case *types.ParameterizedUserDefinedType:
+		if udt, ok := argType.(*types.UserDefinedType); ok && len(udt.TypeParameters) == len(p.TypeParameters) {
+			for i, param := range p.TypeParameters {
+				declared, ok := param.(*types.DataTypeUDTParam)
+				if !ok {
+					continue
+				}
+				if actual, ok := udt.TypeParameters[i].(*types.DataTypeParameter); ok {
+					if err := validateAnyTypeBinding(declared.Type, actual.Type, bindings); err != nil {
+						return err
+					}
+				}
+			}
+		}
 	case *types.ParameterizedStructType:
 		if structType, ok := argType.(*types.StructType); ok {
 			params := structType.GetParameters()
-- 
2.43.0


From 17c28664c4696c386b0e0ad4e17b827b517e412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:38 +0000
Subject: [PATCH 23/85] fix: resolving a function without a declared return
 type is an error

---
 extensions/variants.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/extensions/variants.go b/extensions/variants.go
index 8a8c0dd..f07b1b6 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -360,6 +360,9 @@ func (s *ScalarFunctionVariant) Nullability() NullabilityHandling { return s.imp
 func (s *ScalarFunctionVariant) URN() string                      { return s.urn }
 func (s *ScalarFunctionVariant) Metadata() map[string]any         { return s.metadata }
 func (s *ScalarFunctionVariant) ResolveType(argumentTypes []types.Type, registry Set) (types.Type, error) {
+	if s.impl.Return == nil {
+		return nil, fmt.Errorf("%w: function %s does not declare a return type", substraitgo.ErrInvalidExpr, s.CompoundName())
+	}
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *ScalarFunctionVariant) CompoundName() string {
@@ -474,6 +477,9 @@ func (s *AggregateFunctionVariant) Nullability() NullabilityHandling { return s.
 func (s *AggregateFunctionVariant) URN() string                      { return s.urn }
 func (s *AggregateFunctionVariant) Metadata() map[string]any         { return s.metadata }
 func (s *AggregateFunctionVariant) ResolveType(argumentTypes []types.Type, registry Set) (types.Type, error) {
+	if s.impl.Return == nil {
+		return nil, fmt.Errorf("%w: function %s does not declare a return type", substraitgo.ErrInvalidExpr, s.CompoundName())
+	}
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *AggregateFunctionVariant) CompoundName() string {
@@ -596,6 +602,9 @@ func (s *WindowFunctionVariant) Nullability() NullabilityHandling { return s.imp
 func (s *WindowFunctionVariant) URN() string                      { return s.urn }
 func (s *WindowFunctionVariant) Metadata() map[string]any         { return s.metadata }
 func (s *WindowFunctionVariant) ResolveType(argumentTypes []types.Type, registry Set) (types.Type, error) {
+	if s.impl.Return == nil {
+		return nil, fmt.Errorf("%w: function %s does not declare a return type", substraitgo.ErrInvalidExpr, s.CompoundName())
+	}
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *WindowFunctionVariant) CompoundName() string {
-- 
2.43.0


From 0d6c09a7064cdd886744be8d27fe1b51b30d7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 24/85] fix: matching with nullability compares nested
 nullability in function and user-defined types

---
 types/parameterized_func_type.go         | 14 +++++++++++++-
 types/parameterized_user_defined_type.go |  6 ++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/types/parameterized_func_type.go b/types/parameterized_func_type.go
index ce9fe8f..b646473 100644
--- a/types/parameterized_func_type.go
+++ b/types/parameterized_func_type.go
@@ -72,7 +72,19 @@ func (f *ParameterizedFuncType) MatchWithNullability(ot Type) bool {
 	if f.Nullability != ot.GetNullability() {
 		return false
 	}
-	return f.MatchWithoutNullability(ot)
+	oft, ok := ot.(*FuncType)
+	if !ok {
+		return false
+	}
+	if len(f.Parameters) != len(oft.ParameterTypes) {
+		return false
+	}
+	for i, pt := range f.Parameters {
+		if !pt.MatchWithNullability(oft.ParameterTypes[i]) {
+			return false
+		}
+	}
+	return f.Return.MatchWithNullability(oft.ReturnType)
 }
 
 // MatchWithoutNullability checks if this parameterized type matches the given concrete type
diff --git a/types/parameterized_user_defined_type.go b/types/parameterized_user_defined_type.go
index 637744c..0d8a3e5 100644
--- a/types/parameterized_user_defined_type.go
+++ b/types/parameterized_user_defined_type.go
@@ -38,10 +38,8 @@ func (d *DataTypeUDTParam) toTypeParamWithArgs(funcParams []FuncDefArgType, argT
 }
 
 func (d *DataTypeUDTParam) MatchWithNullability(param TypeParam) bool {
-	if d.MatchWithoutNullability(param) {
-		if dataParam, ok := param.(*DataTypeParameter); ok {
-			return d.Type.GetNullability() == dataParam.Type.GetNullability()
-		}
+	if dataParam, ok := param.(*DataTypeParameter); ok {
+		return d.Type.MatchWithNullability(dataParam.Type)
 	}
 	return false
 }
-- 
2.43.0


From d518ca3538076fa5ce06749b37a108a3ecd7b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 25/85] fix: any types within user-defined types determine the
 return type

---
 types/any_type.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/types/any_type.go b/types/any_type.go
index 4b065b7..7c199d1 100644
--- a/types/any_type.go
+++ b/types/any_type.go
@@ -99,7 +99,7 @@ func unwrapAnyTypeWithName(name string, p FuncDefArgType, argType Type) (Type, e
 	case *ParameterizedFuncType:
 		// FuncType.GetParameters() returns [paramTypes..., returnType]
 		// ParameterizedFuncType has Parameters (inputs) + Return (output), so append here
-		allDefTypes := append(arg.Parameters, arg.Return)
+		allDefTypes := append(slices.Clone(arg.Parameters), arg.Return)
 		argParams := argType.GetParameters()
 		if len(argParams) != len(allDefTypes) || slices.Contains(argParams, nil) {
 			return nil, fmt.Errorf("expected FuncType to have %d non-nil parameters, found %v",
@@ -114,6 +114,29 @@ func unwrapAnyTypeWithName(name string, p FuncDefArgType, argType Type) (Type, e
 				return pt, nil
 			}
 		}
+	case *ParameterizedUserDefinedType:
+		argParams := argType.GetParameters()
+		if len(argParams) != len(arg.TypeParameters) {
+			return nil, fmt.Errorf("expected UserDefinedType to have %d parameters, found %v",
+				len(arg.TypeParameters), argParams)
+		}
+		for i, param := range argParams {
+			defParam, ok := arg.TypeParameters[i].(*DataTypeUDTParam)
+			if !ok {
+				continue
+			}
+			argParam, ok := param.(*DataTypeParameter)
+			if !ok {
+				return nil, fmt.Errorf("expected parameter %d of UserDefinedType to be a type, found %v", i, param)
+			}
+			pt, err := unwrapAnyTypeWithName(name, defParam.Type, argParam.Type)
+			if err != nil {
+				return nil, err
+			}
+			if pt != nil {
+				return pt, nil
+			}
+		}
 	}
 	// Didn't find matching AnyType.
 	return nil, nil
-- 
2.43.0


From bc3aa3f1283165d1954faccde35cafc1792b9fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:23 +0000
Subject: [PATCH 26/85] fix: a local name equal to another function's name does
 not invalidate a dialect

---
 functions/dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 3efba63..9c2ed35 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -110,7 +110,7 @@ func makeLocalFunctionVariantMapAndSlice[T withID, V localFunctionVariant](
 	variantsMap := make(map[FunctionName][]V)
 	variantsSlice := make([]V, 0)
 	for _, dfi := range dialectFunctionInfos {
-		if _, nameAlreadyProcessed := variantsMap[LocalFunctionName(dfi.Name)]; nameAlreadyProcessed {
+		if _, nameAlreadyProcessed := variantsMap[SubstraitFunctionName(dfi.Name)]; nameAlreadyProcessed {
 			if _, ok := processedFunctions[dfi.ID]; !ok {
 				var invocationType V
 				return nil, fmt.Errorf("%w: no %s function variant found for '%s'", substraitgo.ErrInvalidDialect, invocationType.InvocationTypeName(), dfi.ID)
-- 
2.43.0


From ea532859f9b0c60f29bb58d809765303be10f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 27/85] fix: aggregate and window functions of the same ID are
 looked up separately

---
 functions/dialect.go         | 18 ++++++++++--------
 functions/local_functions.go | 36 ++++++++++++++++--------------------
 2 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 9c2ed35..46df083 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -77,14 +77,16 @@ func (d *dialectImpl) LocalizeFunctionRegistry(registry FunctionRegistry) (Local
 	allVariants = appendVariants(allVariants, windowFunctions.variantsSlice)
 
 	return &localFunctionRegistryImpl{
-		dialect:              d,
-		scalarFunctions:      scalarFunctions.variantsMap,
-		aggregateFunctions:   aggregateFunctions.variantsMap,
-		windowFunctions:      windowFunctions.variantsMap,
-		allFunctions:         allVariants,
-		idToLocalFunctionMap: makeLocalFunctionVariantsMap(allVariants),
-		localTypeRegistry:    localTypeRegistry,
-		funcRegistry:         registry,
+		dialect:               d,
+		scalarFunctions:       scalarFunctions.variantsMap,
+		aggregateFunctions:    aggregateFunctions.variantsMap,
+		windowFunctions:       windowFunctions.variantsMap,
+		allFunctions:          allVariants,
+		idToScalarFunction:    makeLocalFunctionVariantsMap(scalarFunctions.variantsSlice),
+		idToAggregateFunction: makeLocalFunctionVariantsMap(aggregateFunctions.variantsSlice),
+		idToWindowFunction:    makeLocalFunctionVariantsMap(windowFunctions.variantsSlice),
+		localTypeRegistry:     localTypeRegistry,
+		funcRegistry:          registry,
 	}, nil
 }
 
diff --git a/functions/local_functions.go b/functions/local_functions.go
index 5213d43..e8fbea6 100644
--- a/functions/local_functions.go
+++ b/functions/local_functions.go
@@ -17,22 +17,18 @@ type localFunctionRegistryImpl struct {
 
 	allFunctions []extensions.FunctionVariant
 
-	idToLocalFunctionMap map[extensions.FunctionID]localFunctionVariant
-	localTypeRegistry    LocalTypeRegistry
-	funcRegistry         FunctionRegistry
+	// an aggregate and a window function can have the same ID
+	idToScalarFunction    map[extensions.FunctionID]*LocalScalarFunctionVariant
+	idToAggregateFunction map[extensions.FunctionID]*LocalAggregateFunctionVariant
+	idToWindowFunction    map[extensions.FunctionID]*LocalWindowFunctionVariant
+	localTypeRegistry     LocalTypeRegistry
+	funcRegistry          FunctionRegistry
 }
 
-func makeLocalFunctionVariantsMap(functions []extensions.FunctionVariant) map[extensions.FunctionID]localFunctionVariant {
-	localFunctionVariants := make(map[extensions.FunctionID]localFunctionVariant)
+func makeLocalFunctionVariantsMap[V withID](functions []V) map[extensions.FunctionID]V {
+	localFunctionVariants := make(map[extensions.FunctionID]V)
 	for _, f := range functions {
-		switch variant := f.(type) {
-		case *LocalScalarFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
-		case *LocalAggregateFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
-		case *LocalWindowFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
-		}
+		localFunctionVariants[f.ID()] = f
 	}
 	return localFunctionVariants
 }
@@ -62,26 +58,26 @@ func (l *localFunctionRegistryImpl) GetWindowFunctions(name FunctionName, numArg
 }
 
 func (l *localFunctionRegistryImpl) GetScalarFunctionByInvocation(scalarFuncInvocation *expr.ScalarFunction) (*LocalScalarFunctionVariant, error) {
-	return getFunctionVariantByInvocation[*LocalScalarFunctionVariant](scalarFuncInvocation, l)
+	return getFunctionVariantByInvocation(scalarFuncInvocation, l.idToScalarFunction, l.localTypeRegistry)
 }
 
 func (l *localFunctionRegistryImpl) GetAggregateFunctionByInvocation(aggregateFuncInvocation *expr.AggregateFunction) (*LocalAggregateFunctionVariant, error) {
-	return getFunctionVariantByInvocation[*LocalAggregateFunctionVariant](aggregateFuncInvocation, l)
+	return getFunctionVariantByInvocation(aggregateFuncInvocation, l.idToAggregateFunction, l.localTypeRegistry)
 }
 
 func (l *localFunctionRegistryImpl) GetWindowFunctionByInvocation(windowFuncInvocation *expr.WindowFunction) (*LocalWindowFunctionVariant, error) {
-	return getFunctionVariantByInvocation[*LocalWindowFunctionVariant](windowFuncInvocation, l)
+	return getFunctionVariantByInvocation(windowFuncInvocation, l.idToWindowFunction, l.localTypeRegistry)
 }
 
-func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.FunctionInvocation, registry *localFunctionRegistryImpl) (V, error) {
+func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.FunctionInvocation, functions map[extensions.FunctionID]V, typeRegistry LocalTypeRegistry) (V, error) {
 	var zeroV V
-	f, ok := registry.idToLocalFunctionMap[invocation.ID()]
+	f, ok := functions[invocation.ID()]
 	if !ok {
 		return zeroV, fmt.Errorf("function variant not found for function: %s", invocation.ID())
 	}
 	argTypes := invocation.GetArgTypes()
 	for i, argType := range argTypes {
-		_, err := registry.localTypeRegistry.GetLocalTypeFromSubstraitType(argType)
+		_, err := typeRegistry.GetLocalTypeFromSubstraitType(argType)
 		if err != nil {
 			return zeroV, fmt.Errorf("unsupported substrait type: %v as argument %d in %s", argType, i, invocation.CompoundName())
 		}
@@ -93,7 +89,7 @@ func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.Func
 			}
 		}
 	}
-	return f.(V), nil
+	return f, nil
 }
 
 var _ LocalFunctionRegistry = &localFunctionRegistryImpl{}
-- 
2.43.0


From 0b2396e3e31d24f4d587fc7e0e711b1136340be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:33 +0000
Subject: [PATCH 28/85] fix: type strings can state the precision of time types

---
 functions/types.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/functions/types.go b/functions/types.go
index 1231556..211e294 100644
--- a/functions/types.go
+++ b/functions/types.go
@@ -98,6 +98,28 @@ func getTypeWithParameters(typ types.Type, parameters []int32) (types.Type, erro
 		case *types.VarCharType:
 			return &types.VarCharType{Length: parameters[0]}, nil
 		}
+	case *types.IntervalDayType, *types.PrecisionTimeType, *types.PrecisionTimestampType, *types.PrecisionTimestampTzType:
+		// the precision can be left out
+		if len(parameters) == 0 {
+			return typ, nil
+		}
+		if len(parameters) != 1 {
+			return nil, substraitgo.ErrInvalidType
+		}
+		precision, err := types.ProtoToTimePrecision(parameters[0])
+		if err != nil {
+			return nil, err
+		}
+		switch typ.(type) {
+		case *types.IntervalDayType:
+			return &types.IntervalDayType{Precision: precision}, nil
+		case *types.PrecisionTimeType:
+			return &types.PrecisionTimeType{Precision: precision}, nil
+		case *types.PrecisionTimestampType:
+			return &types.PrecisionTimestampType{Precision: precision}, nil
+		case *types.PrecisionTimestampTzType:
+			return &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Precision: precision}}, nil
+		}
 	default:
 		if len(parameters) != 0 {
 			return nil, substraitgo.ErrInvalidType
-- 
2.43.0


From 584609047b19e62e4511f67e50a2245d63659c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:39 +0000
Subject: [PATCH 29/85] fix: a local name shared by several types always
 denotes the same one

---
 functions/dialect.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 46df083..f36b34c 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -5,6 +5,7 @@ package functions
 import (
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 
 	"github.com/creasty/defaults"
@@ -168,7 +169,14 @@ func (d *dialectImpl) LocalizeTypeRegistry(TypeRegistry) (LocalTypeRegistry, err
 		return d.localTypeRegistry, nil
 	}
 	typeInfos := make([]typeInfo, 0, len(d.toLocalTypeMap))
-	for name, info := range d.toLocalTypeMap {
+	names := make([]string, 0, len(d.toLocalTypeMap))
+	for name := range d.toLocalTypeMap {
+		names = append(names, name)
+	}
+	// several types can share a local name: visit them in the same order every time
+	sort.Strings(names)
+	for _, name := range names {
+		info := d.toLocalTypeMap[name]
 		// TODO use registry.GetTypeClasses
 		typ, err := getTypeFromBaseTypeName(name)
 		if err != nil {
-- 
2.43.0


From a1bb3435a59f54551a72b212e708a38bf6cd3072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:53 +0000
Subject: [PATCH 30/85] fix: keep type variation and pre-epoch values of
 precision time literals when decoding

---
 expr/literals.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index f43e5cc..882a027 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1238,27 +1238,44 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		if precTime.Value < 0 {
 			return nil
 		}
-		return NewPrecisionTimeLiteral(precTime.Value, precision, nullability)
+		return &ProtoLiteral{
+			Value: precTime.Value,
+			Type: &types.PrecisionTimeType{
+				Precision:        precision,
+				Nullability:      nullability,
+				TypeVariationRef: l.TypeVariationReference,
+			},
+		}
 	case *proto.Expression_Literal_PrecisionTimestamp_:
 		precTimeStamp := lit.PrecisionTimestamp
 		precision, err := types.ProtoToTimePrecision(precTimeStamp.Precision)
 		if err != nil {
 			return nil
 		}
-		if precTimeStamp.Value < 0 {
-			return nil
+		return &ProtoLiteral{
+			Value: precTimeStamp.Value,
+			Type: &types.PrecisionTimestampType{
+				Precision:        precision,
+				Nullability:      nullability,
+				TypeVariationRef: l.TypeVariationReference,
+			},
 		}
-		return NewPrecisionTimestampLiteral(precTimeStamp.Value, precision, nullability)
 	case *proto.Expression_Literal_PrecisionTimestampTz:
 		precTimeStamp := lit.PrecisionTimestampTz
 		precision, err := types.ProtoToTimePrecision(precTimeStamp.Precision)
 		if err != nil {
 			return nil
 		}
-		if precTimeStamp.Value < 0 {
-			return nil
+		return &ProtoLiteral{
+			Value: precTimeStamp.Value,
+			Type: &types.PrecisionTimestampTzType{
+				PrecisionTimestampType: types.PrecisionTimestampType{
+					Precision:        precision,
+					Nullability:      nullability,
+					TypeVariationRef: l.TypeVariationReference,
+				},
+			},
 		}
-		return NewPrecisionTimestampTzLiteral(precTimeStamp.Value, precision, nullability)
 	case *proto.Expression_Literal_IntervalYearToMonth_:
 		return intervalYearToMonthLiteralFromProto(l)
 	case *proto.Expression_Literal_IntervalCompound_:
-- 
2.43.0


From 9aa1d4e37d02ad3861416972af3f4984beeeea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:20 +0000
Subject: [PATCH 31/85] fix: keep the type variation of interval literals when
 decoding

---
 expr/interval_compound_literal.go |  8 ++++++--
 expr/interval_year_to_month.go    | 16 +++++++++-------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/expr/interval_compound_literal.go b/expr/interval_compound_literal.go
index ec9790b..5de5d37 100644
--- a/expr/interval_compound_literal.go
+++ b/expr/interval_compound_literal.go
@@ -17,10 +17,11 @@ type IntervalCompoundLiteral struct {
 	SubSeconds         int64
 	SubSecondPrecision types.TimePrecision
 	Nullability        types.Nullability
+	TypeVariationRef   uint32
 }
 
 func (m IntervalCompoundLiteral) getType() types.Type {
-	return types.NewIntervalCompoundType().WithPrecision(m.SubSecondPrecision).WithNullability(m.Nullability)
+	return types.NewIntervalCompoundType().WithPrecision(m.SubSecondPrecision).WithTypeVariationRef(m.TypeVariationRef).WithNullability(m.Nullability)
 }
 
 func (m IntervalCompoundLiteral) ToProtoLiteral() *proto.Expression_Literal {
@@ -59,7 +60,10 @@ func (m IntervalCompoundLiteral) ToProto() *proto.Expression {
 }
 
 func intervalCompoundLiteralFromProto(l *proto.Expression_Literal) Literal {
-	icLiteral := IntervalCompoundLiteral{Nullability: getNullability(l.Nullable)}
+	icLiteral := IntervalCompoundLiteral{
+		Nullability:      getNullability(l.Nullable),
+		TypeVariationRef: l.TypeVariationReference,
+	}
 	yearToMonth := l.GetIntervalCompound().GetIntervalYearToMonth()
 	if yearToMonth != nil {
 		icLiteral.Years = yearToMonth.Years
diff --git a/expr/interval_year_to_month.go b/expr/interval_year_to_month.go
index 8006aa5..7e5db77 100644
--- a/expr/interval_year_to_month.go
+++ b/expr/interval_year_to_month.go
@@ -9,13 +9,14 @@ import (
 
 // IntervalYearToMonthLiteral implements Literal interface for interval year to month type
 type IntervalYearToMonthLiteral struct {
-	Years       int32
-	Months      int32
-	Nullability types.Nullability
+	Years            int32
+	Months           int32
+	Nullability      types.Nullability
+	TypeVariationRef uint32
 }
 
 func (m IntervalYearToMonthLiteral) getType() types.Type {
-	return types.NewIntervalYearToMonthType().WithNullability(m.Nullability)
+	return types.NewIntervalYearToMonthType().WithTypeVariationRef(m.TypeVariationRef).WithNullability(m.Nullability)
 }
 
 func (m IntervalYearToMonthLiteral) ToProtoLiteral() *proto.Expression_Literal {
@@ -40,9 +41,10 @@ func (m IntervalYearToMonthLiteral) ToProto() *proto.Expression {
 
 func intervalYearToMonthLiteralFromProto(l *proto.Expression_Literal) Literal {
 	return IntervalYearToMonthLiteral{
-		Years:       l.GetIntervalYearToMonth().Years,
-		Months:      l.GetIntervalYearToMonth().Months,
-		Nullability: getNullability(l.Nullable),
+		Years:            l.GetIntervalYearToMonth().GetYears(),
+		Months:           l.GetIntervalYearToMonth().GetMonths(),
+		Nullability:      getNullability(l.Nullable),
+		TypeVariationRef: l.TypeVariationReference,
 	}
 }
 
-- 
2.43.0


From c0a59afba812537766221499c7990a6985d0b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 32/85] fix: keep the precision of a zero interval compound
 literal

---
 expr/interval_compound_literal.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/expr/interval_compound_literal.go b/expr/interval_compound_literal.go
index 5de5d37..be5f589 100644
--- a/expr/interval_compound_literal.go
+++ b/expr/interval_compound_literal.go
@@ -36,7 +36,8 @@ func (m IntervalCompoundLiteral) ToProtoLiteral() *proto.Expression_Literal {
 		intrCompPB.IntervalYearToMonth = yearToMonthProto
 	}
 
-	if m.Days != 0 || m.Seconds != 0 || m.SubSeconds != 0 {
+	// the day to second part also carries the precision of the literal's type
+	if m.Days != 0 || m.Seconds != 0 || m.SubSeconds != 0 || m.SubSecondPrecision != types.PrecisionSeconds {
 		dayToSecondProto := &proto.Expression_Literal_IntervalDayToSecond{
 			Days:          m.Days,
 			Seconds:       m.Seconds,
@@ -123,7 +124,7 @@ func validateIntervalDayToSecondProto(idts *proto.Expression_Literal_IntervalDay
 	}
 	if _, ok := idts.PrecisionMode.(*proto.Expression_Literal_IntervalDayToSecond_Microseconds); ok {
 		// if microsecond precision then subseconds must be set to zero
-		if idts.Subseconds > 0 {
+		if idts.Subseconds != 0 {
 			return errors.New("both deprecated microseconds and subseconds can't be non zero")
 		}
 	}
-- 
2.43.0


From be2414f1e671d3145ceb0dd3a78e947276c5a352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:10 +0000
Subject: [PATCH 33/85] fix: give interval day literals built from deprecated
 microseconds their precision

---
 expr/literals.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/expr/literals.go b/expr/literals.go
index 882a027..1f3f1c0 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -945,11 +945,20 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 			},
 		}, nil
 	case *types.IntervalDayToSecond:
+		// without an explicit precision the value is in (deprecated) microseconds
+		precision := types.PrecisionMicroSeconds
+		if _, ok := v.GetPrecisionMode().(*proto.Expression_Literal_IntervalDayToSecond_Precision); ok {
+			var err error
+			precision, err = types.ProtoToTimePrecision(v.GetPrecision())
+			if err != nil {
+				return nil, err
+			}
+		}
 		return &ProtoLiteral{
 			Value: v,
 			Type: &types.IntervalDayType{
 				Nullability: getNullability(nullable),
-				Precision:   types.TimePrecision(v.GetPrecision()),
+				Precision:   precision,
 			},
 		}, nil
 	case *types.Decimal:
-- 
2.43.0


From 3817db78987554ecac1de5b501e23c3c2a0b94fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:28 +0000
Subject: [PATCH 34/85] fix: reject time literals of invalid precision

---
 expr/literals.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 1f3f1c0..6faf415 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -996,11 +996,23 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 			},
 		}, nil
 	case *types.PrecisionTime:
-		return NewPrecisionTimeLiteral(v.Value, types.TimePrecision(v.Precision), getNullability(nullable)), nil
+		precision, err := types.ProtoToTimePrecision(v.Precision)
+		if err != nil {
+			return nil, err
+		}
+		return NewPrecisionTimeLiteral(v.Value, precision, getNullability(nullable)), nil
 	case *types.PrecisionTimestamp:
-		return NewPrecisionTimestampLiteral(v.PrecisionTimestamp.Value, types.TimePrecision(v.PrecisionTimestamp.Precision), getNullability(nullable)), nil
+		precision, err := types.ProtoToTimePrecision(v.PrecisionTimestamp.GetPrecision())
+		if err != nil {
+			return nil, err
+		}
+		return NewPrecisionTimestampLiteral(v.PrecisionTimestamp.GetValue(), precision, getNullability(nullable)), nil
 	case *types.PrecisionTimestampTz:
-		return NewPrecisionTimestampTzLiteral(v.PrecisionTimestampTz.Value, types.TimePrecision(v.PrecisionTimestampTz.Precision), getNullability(nullable)), nil
+		precision, err := types.ProtoToTimePrecision(v.PrecisionTimestampTz.GetPrecision())
+		if err != nil {
+			return nil, err
+		}
+		return NewPrecisionTimestampTzLiteral(v.PrecisionTimestampTz.GetValue(), precision, getNullability(nullable)), nil
 	}
 
 	return nil, substraitgo.ErrNotImplemented
-- 
2.43.0


From 0397f4b1f3f7adf06677151bcd18c3d2b4d7e52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:02 +0000
Subject: [PATCH 35/85] fix: compare message-valued literals by content

---
 expr/literals.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 6faf415..df5f0ca 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -18,6 +18,7 @@ import (
 	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/types"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
+	pb "google.golang.org/protobuf/proto"
 )
 
 // PrimitiveLiteralValue is a type constraint that represents
@@ -682,12 +683,29 @@ func (t *ProtoLiteral) ToProto() *proto.Expression {
 
 func (t *ProtoLiteral) Equals(rhs Expression) bool {
 	if other, ok := rhs.(*ProtoLiteral); ok {
-		return t.Type.Equals(other.Type) &&
-			reflect.DeepEqual(t.Value, other.Value)
+		return t.Type.Equals(other.Type) && protoLiteralValueEquals(t.Value, other.Value)
 	}
 	return false
 }
 
+// protoLiteralValueEquals compares the values of two ProtoLiterals. Messages are
+// compared by content: their internal state (caches set by marshalling, for
+// instance) is not part of the value.
+func protoLiteralValueEquals(a, b any) bool {
+	switch v := a.(type) {
+	case pb.Message:
+		other, ok := b.(pb.Message)
+		return ok && pb.Equal(v, other)
+	case *proto.Expression_Literal_UserDefined_Value:
+		other, ok := b.(*proto.Expression_Literal_UserDefined_Value)
+		return ok && pb.Equal(v.Value, other.Value)
+	case *proto.Expression_Literal_UserDefined_Struct:
+		other, ok := b.(*proto.Expression_Literal_UserDefined_Struct)
+		return ok && pb.Equal(v.Struct, other.Struct)
+	}
+	return reflect.DeepEqual(a, b)
+}
+
 func (t *ProtoLiteral) ToProtoFuncArg() *proto.FunctionArgument {
 	return &proto.FunctionArgument{
 		ArgType: &proto.FunctionArgument_Value{Value: t.ToProto()},
-- 
2.43.0


From 4767096bce31b8a80e02805016d1943c74484d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:06 +0000
Subject: [PATCH 36/85] fix: decode and visit a switch expression without an
 else

---
 expr/expression.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 0ea24aa..fe4659d 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -182,9 +182,13 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			return nil, err
 		}
 
-		elseExpr, err := ExprFromProto(et.SwitchExpression.Else, baseSchema, reg)
-		if err != nil {
-			return nil, err
+		// a switch without a default case has no else expression
+		var elseExpr Expression
+		if et.SwitchExpression.Else != nil {
+			elseExpr, err = ExprFromProto(et.SwitchExpression.Else, baseSchema, reg)
+			if err != nil {
+				return nil, err
+			}
 		}
 
 		ifs := make([]struct {
@@ -963,7 +967,10 @@ func (ex *SwitchExpr) Visit(visit VisitFunc) Expression {
 		}
 	}
 
-	afterElse := visit(ex.elseClause)
+	var afterElse Expression
+	if ex.elseClause != nil {
+		afterElse = visit(ex.elseClause)
+	}
 	if out == nil {
 		if afterElse == ex.elseClause {
 			return ex
-- 
2.43.0


From 6dc259658dc73501e782819435a70f7648cb57df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:14 +0000
Subject: [PATCH 37/85] fix: compare the argument counts of scalar functions

---
 expr/functions.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/expr/functions.go b/expr/functions.go
index cd16c14..286b2f6 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -421,12 +421,8 @@ func (s *ScalarFunction) Equals(rhs Expression) bool {
 		return false
 	case !s.outputType.Equals(other.outputType):
 		return false
-	}
-
-	for i := range s.args {
-		if !FuncArgsEqual(s.args[i], other.args[i]) {
-			return false
-		}
+	case !slices.EqualFunc(s.args, other.args, FuncArgsEqual):
+		return false
 	}
 
 	return slices.EqualFunc(s.options, other.options, func(a, b *types.FunctionOption) bool {
-- 
2.43.0


From 7efae234eb19aa75e412b5e9ed88724fe9363c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:21 +0000
Subject: [PATCH 38/85] fix: compare the bounds types of window functions

---
 expr/functions.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expr/functions.go b/expr/functions.go
index 286b2f6..a7c1a77 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -647,6 +647,8 @@ func (w *WindowFunction) Equals(other Expression) bool {
 		return false
 	case w.phase != rhs.phase || w.invocation != rhs.invocation:
 		return false
+	case w.BoundsType != rhs.BoundsType:
+		return false
 	case w.LowerBound != rhs.LowerBound || w.UpperBound != rhs.UpperBound:
 		return false
 	case !slices.EqualFunc(w.options, rhs.options, func(l, r *types.FunctionOption) bool {
-- 
2.43.0


From 4b5108a8383a1489c787a91a8a91d158b29f3ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:29 +0000
Subject: [PATCH 39/85] fix: encode list and map masks without a child and
 compare masked references by content

---
 expr/field_reference.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index 362d7bd..d858525 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -10,6 +10,7 @@ import (
 	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/types"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
+	pb "google.golang.org/protobuf/proto"
 )
 
 // RootRefType is a marker interface for types that can be used as a Root
@@ -373,10 +374,11 @@ func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) MaskSelect {
 				selection[i] = (*MaskListSlice)(s.Slice)
 			}
 		}
-		return &MaskListSelect{
-			selection: selection,
-			child:     maskSelectFromProto(s.List.Child),
+		ret := &MaskListSelect{selection: selection}
+		if s.List.Child != nil {
+			ret.child = maskSelectFromProto(s.List.Child)
 		}
+		return ret
 	case *proto.Expression_MaskExpression_Select_Map:
 		var ret MaskMapSelect
 		if s.Map.Child != nil {
@@ -450,11 +452,16 @@ func (m *MaskListSelect) ToProto() *proto.Expression_MaskExpression_Select {
 		selection[i] = s.ToProto()
 	}
 
+	var childProto *proto.Expression_MaskExpression_Select
+	if m.child != nil {
+		childProto = m.child.ToProto()
+	}
+
 	return &proto.Expression_MaskExpression_Select{
 		Type: &proto.Expression_MaskExpression_Select_List{
 			List: &proto.Expression_MaskExpression_ListSelect{
 				Selection: selection,
-				Child:     m.child.ToProto(),
+				Child:     childProto,
 			},
 		},
 	}
@@ -519,9 +526,10 @@ func (m *MaskMapSelect) Child() MaskSelect {
 
 func (m *MaskMapSelect) ToProto() *proto.Expression_MaskExpression_Select {
 	ret := &proto.Expression_MaskExpression_Select_Map{
-		Map: &proto.Expression_MaskExpression_MapSelect{
-			Child: m.child.ToProto(),
-		},
+		Map: &proto.Expression_MaskExpression_MapSelect{},
+	}
+	if m.child != nil {
+		ret.Map.Child = m.child.ToProto()
 	}
 
 	if m.kind == MapSelectKey {
@@ -742,7 +750,7 @@ func (f *FieldReference) Equals(rhs Expression) bool {
 				return false
 			}
 
-			return ref == rhs
+			return ref == rhs || pb.Equal(ref.ToProto(), rhs.ToProto())
 		}
 	}
 
-- 
2.43.0


From faa9d48ad6a381f1d4f2ccd4348117caba121b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:07 +0000
Subject: [PATCH 40/85] fix: visit the partitions and sorts of window functions

---
 expr/functions.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/expr/functions.go b/expr/functions.go
index a7c1a77..2a38fcb 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -756,12 +756,42 @@ func (w *WindowFunction) Visit(visit VisitFunc) Expression {
 		}
 	}
 
-	if args == nil {
+	var parts []Expression
+	for i, part := range w.Partitions {
+		after := visit(part)
+		if parts == nil && part != after {
+			parts = slices.Clone(w.Partitions)
+		}
+		if parts != nil {
+			parts[i] = after
+		}
+	}
+
+	var sorts []SortField
+	for i, sort := range w.Sorts {
+		after := visit(sort.Expr)
+		if sorts == nil && sort.Expr != after {
+			sorts = slices.Clone(w.Sorts)
+		}
+		if sorts != nil {
+			sorts[i].Expr = after
+		}
+	}
+
+	if args == nil && parts == nil && sorts == nil {
 		return w
 	}
 
 	out := *w
-	out.args = args
+	if args != nil {
+		out.args = args
+	}
+	if parts != nil {
+		out.Partitions = parts
+	}
+	if sorts != nil {
+		out.Sorts = sorts
+	}
 	return &out
 }
 
-- 
2.43.0


From 74c4e125b21a483fb68fa723328274c9f36619c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:15 +0000
Subject: [PATCH 41/85] fix: rewriting an option of a multi-or-list panicked

---
 expr/expression.go | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index fe4659d..dbf08df 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -1199,11 +1199,7 @@ func (ex *MultiOrList) Visit(visit VisitFunc) Expression {
 		after := visit(v)
 
 		if out == nil && after != v {
-			out = &MultiOrList{
-				Value:   make([]Expression, len(ex.Value)),
-				Options: make([][]Expression, len(ex.Options)),
-			}
-			copy(out.Value, ex.Value[:i])
+			out = ex.clone()
 		}
 
 		if out != nil {
@@ -1212,25 +1208,11 @@ func (ex *MultiOrList) Visit(visit VisitFunc) Expression {
 	}
 
 	for i, opts := range ex.Options {
-		if out != nil && len(out.Options[i]) == 0 {
-			out.Options[i] = make([]Expression, len(ex.Options[i]))
-		}
-
 		for j, o := range opts {
 			after := visit(o)
 
 			if out == nil && after != o {
-				out = &MultiOrList{
-					Value:   slices.Clone(ex.Value),
-					Options: make([][]Expression, len(ex.Options)),
-				}
-				for k := 0; k < i; k++ {
-					out.Options[k] = slices.Clone(ex.Options[k])
-				}
-
-				for k := 0; k < j; k++ {
-					out.Options[i][k] = ex.Options[i][k]
-				}
+				out = ex.clone()
 			}
 
 			if out != nil {
@@ -1246,6 +1228,18 @@ func (ex *MultiOrList) Visit(visit VisitFunc) Expression {
 	return out
 }
 
+// clone copies the expression and its lists, but not the expressions in them.
+func (ex *MultiOrList) clone() *MultiOrList {
+	out := &MultiOrList{
+		Value:   slices.Clone(ex.Value),
+		Options: make([][]Expression, len(ex.Options)),
+	}
+	for i, opts := range ex.Options {
+		out.Options[i] = slices.Clone(opts)
+	}
+	return out
+}
+
 type NestedExpr interface {
 	Expression
 
-- 
2.43.0


From c824001649a1c31e4140eab6197d3ec93bb25295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:36 +0000
Subject: [PATCH 42/85] fix: resolve the types of lambda parameter references
 when decoding

---
 expr/expression.go      | 4 +++-
 expr/field_reference.go | 7 +++++++
 expr/utils.go           | 4 ++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/expr/expression.go b/expr/expression.go
index dbf08df..e8a9d85 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -369,12 +369,14 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			return nil, fmt.Errorf("%w: lambda parameters struct must have NULLABILITY_REQUIRED", substraitgo.ErrInvalidExpr)
 		}
 
+		// reg is a copy: the parameters are in scope within the body only
+		reg.lambdaParameters = append(slices.Clip(reg.lambdaParameters), params)
 		body, err := ExprFromProto(et.Lambda.Body, baseSchema, reg)
 		if err != nil {
 			return nil, err
 		}
 
-		// TODO (#189): add validation and type resolution for lambda parameter references
+		// TODO (#189): add validation for lambda parameter references
 		return &Lambda{Parameters: params, Body: body}, nil
 	}
 	return nil, fmt.Errorf("%w: ExprFromProto: %s", substraitgo.ErrNotImplemented, e)
diff --git a/expr/field_reference.go b/expr/field_reference.go
index d858525..56523ba 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -802,6 +802,13 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 			if err != nil {
 				return nil, err
 			}
+		} else if lambdaRef, ok := root.(LambdaParameterReference); ok {
+			// references that don't resolve are not rejected yet, see TODO (#189)
+			if n := int64(len(reg.lambdaParameters)) - 1 - int64(lambdaRef.StepsOut); n >= 0 && refseg != nil {
+				if t, err := refseg.GetType(reg.lambdaParameters[n]); err == nil {
+					knownType = t
+				}
+			}
 		}
 
 		ref = refseg
diff --git a/expr/utils.go b/expr/utils.go
index 69ca42b..bc317b3 100644
--- a/expr/utils.go
+++ b/expr/utils.go
@@ -38,6 +38,10 @@ type ExtensionRegistry struct {
 
 	// extensionRelDecoders maps type URLs to decoders for extension relation details.
 	extensionRelDecoders map[string]ExtensionRelDecoder
+
+	// lambdaParameters are the parameters of the lambdas around the expression
+	// being decoded, outermost first.
+	lambdaParameters []*types.StructType
 }
 
 // subqueryConverter converts subqueries and the Relations within from the native
-- 
2.43.0


From 445c418bca05c59fa6ba29702dac0a3f3d9d4b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 43/85] fix: functions that no extension file declares keep
 their compound name

A variant constructed from an ID panicked when the signature has a type that
does not parse by its short name (dec, str, bool, ...), as in decoding a plan
with such a function, and otherwise reported another ID than the given one.
---
 extensions/variants.go | 82 +++++++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 29 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index f07b1b6..6396aba 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -277,6 +277,9 @@ func getFuncDefFromArgList(paramTypeList FuncParameterList) ([]types.FuncDefArgT
 	return out, nil
 }
 
+// parseFuncName splits a compound name into the function's name and parameters.
+// The parameters are left out when the signature doesn't spell them in full: most
+// short type names don't parse as a type.
 func parseFuncName(compoundName string) (name string, args FuncParameterList) {
 	name, argsStr, _ := strings.Cut(compoundName, ":")
 	if len(argsStr) == 0 {
@@ -286,7 +289,7 @@ func parseFuncName(compoundName string) (name string, args FuncParameterList) {
 	for _, argStr := range splitArgs {
 		parsed, err := parser.ParseType(argStr)
 		if err != nil {
-			panic(err)
+			return name, nil
 		}
 		exp := ValueArg{Name: name, Value: &parser.TypeExpression{ValueType: parsed}}
 		args = append(args, exp)
@@ -318,9 +321,10 @@ func maxArgumentCount(paramTypeList FuncParameterList, variadicBehavior *Variadi
 func NewScalarFuncVariant(id FunctionID) *ScalarFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &ScalarFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
-		impl: ScalarFunctionImpl{Args: args},
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
+		impl:         ScalarFunctionImpl{Args: args},
 	}
 }
 
@@ -330,8 +334,9 @@ func NewScalarFuncVariant(id FunctionID) *ScalarFunctionVariant {
 func NewScalarFuncVariantWithProps(id FunctionID, variadic *VariadicBehavior, sessionDependant, deterministic bool) *ScalarFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &ScalarFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
 		impl: ScalarFunctionImpl{
 			Args:             args,
 			Variadic:         variadic,
@@ -342,11 +347,13 @@ func NewScalarFuncVariantWithProps(id FunctionID, variadic *VariadicBehavior, se
 }
 
 type ScalarFunctionVariant struct {
-	name        string
-	description string
-	urn         string
-	impl        ScalarFunctionImpl
-	metadata    map[string]any
+	name string
+	// compoundName is set for a variant constructed from its ID
+	compoundName string
+	description  string
+	urn          string
+	impl         ScalarFunctionImpl
+	metadata     map[string]any
 }
 
 func (s *ScalarFunctionVariant) Name() string                     { return s.name }
@@ -366,6 +373,9 @@ func (s *ScalarFunctionVariant) ResolveType(argumentTypes []types.Type, registry
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *ScalarFunctionVariant) CompoundName() string {
+	if s.compoundName != "" {
+		return s.compoundName
+	}
 	return s.name + ":" + s.impl.signatureKey()
 }
 func (s *ScalarFunctionVariant) ID() FunctionID {
@@ -397,8 +407,9 @@ func (s *ScalarFunctionVariant) MaxArgumentCount() int {
 func NewAggFuncVariant(id FunctionID) *AggregateFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &AggregateFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
 		impl: AggregateFunctionImpl{
 			ScalarFunctionImpl: ScalarFunctionImpl{
 				Args: args,
@@ -441,8 +452,9 @@ func NewAggFuncVariantOpts(id FunctionID, opts AggVariantOptions) *AggregateFunc
 
 	simpleName, args := parseFuncName(id.Name)
 	return &AggregateFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
 		impl: AggregateFunctionImpl{
 			ScalarFunctionImpl: ScalarFunctionImpl{
 				Args:             args,
@@ -459,11 +471,13 @@ func NewAggFuncVariantOpts(id FunctionID, opts AggVariantOptions) *AggregateFunc
 }
 
 type AggregateFunctionVariant struct {
-	name        string
-	description string
-	urn         string
-	impl        AggregateFunctionImpl
-	metadata    map[string]any
+	name string
+	// compoundName is set for a variant constructed from its ID
+	compoundName string
+	description  string
+	urn          string
+	impl         AggregateFunctionImpl
+	metadata     map[string]any
 }
 
 func (s *AggregateFunctionVariant) Name() string                     { return s.name }
@@ -483,6 +497,9 @@ func (s *AggregateFunctionVariant) ResolveType(argumentTypes []types.Type, regis
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *AggregateFunctionVariant) CompoundName() string {
+	if s.compoundName != "" {
+		return s.compoundName
+	}
 	return s.name + ":" + s.impl.signatureKey()
 }
 func (s *AggregateFunctionVariant) ID() FunctionID {
@@ -512,18 +529,21 @@ func (s *AggregateFunctionVariant) MaxArgumentCount() int {
 }
 
 type WindowFunctionVariant struct {
-	name        string
-	description string
-	urn         string
-	impl        WindowFunctionImpl
-	metadata    map[string]any
+	name string
+	// compoundName is set for a variant constructed from its ID
+	compoundName string
+	description  string
+	urn          string
+	impl         WindowFunctionImpl
+	metadata     map[string]any
 }
 
 func NewWindowFuncVariant(id FunctionID) *WindowFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &WindowFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
 		impl: WindowFunctionImpl{
 			AggregateFunctionImpl: AggregateFunctionImpl{
 				ScalarFunctionImpl: ScalarFunctionImpl{Args: args},
@@ -571,8 +591,9 @@ func NewWindowFuncVariantOpts(id FunctionID, opts WindowVariantOpts) *WindowFunc
 
 	simpleName, args := parseFuncName(id.Name)
 	return &WindowFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
 		impl: WindowFunctionImpl{
 			AggregateFunctionImpl: AggregateFunctionImpl{
 				ScalarFunctionImpl: ScalarFunctionImpl{
@@ -608,6 +629,9 @@ func (s *WindowFunctionVariant) ResolveType(argumentTypes []types.Type, registry
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *WindowFunctionVariant) CompoundName() string {
+	if s.compoundName != "" {
+		return s.compoundName
+	}
 	return s.name + ":" + s.impl.signatureKey()
 }
 func (s *WindowFunctionVariant) ID() FunctionID {
-- 
2.43.0


From e979aac28fc2b4d1a6dcc6c4a2d0a0d5c725ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:18 +0000
Subject: [PATCH 44/85] fix: custom aggregate functions keep their declaration

---
 expr/functions.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/expr/functions.go b/expr/functions.go
index 2a38fcb..da88e99 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -843,13 +843,14 @@ func NewCustomAggregateFunc(
 	}
 
 	return &AggregateFunction{
-		funcRef:    reg.GetFuncAnchor(v.ID()),
-		outputType: outputType,
-		options:    opts,
-		args:       args,
-		invocation: invoke,
-		phase:      phase,
-		Sorts:      sorts,
+		funcRef:     reg.GetFuncAnchor(v.ID()),
+		declaration: v,
+		outputType:  outputType,
+		options:     opts,
+		args:        args,
+		invocation:  invoke,
+		phase:       phase,
+		Sorts:       sorts,
 	}, nil
 }
 
-- 
2.43.0


From 660b655acbb7145499f312c15d26a86ddb36a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:27 +0000
Subject: [PATCH 45/85] fix: encode only finite decimals and reject every
 exponent out of range

---
 expr/decimal_util.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/expr/decimal_util.go b/expr/decimal_util.go
index 53886a1..76970ca 100644
--- a/expr/decimal_util.go
+++ b/expr/decimal_util.go
@@ -43,15 +43,22 @@ func DecimalToBytes(dec *apd.Decimal) ([16]byte, int32, int32, error) {
 		scale     int32
 	)
 
-	if dec.Exponent > 0 {
-		precision = int32(apd.NumDigits(&dec.Coeff)) + dec.Exponent
-		scale = 0
+	if dec.Form != apd.Finite {
+		return result, 0, 0, fmt.Errorf("number %s is not finite", dec.String())
+	}
+	// The exponent may be anywhere in the int32 range, its sums are not.
+	digits, exponent := apd.NumDigits(&dec.Coeff), int64(dec.Exponent)
+	if exponent > 0 {
+		digits += exponent
 	} else {
-		scale = -dec.Exponent
-		precision = max(int32(apd.NumDigits(&dec.Coeff)), scale+1)
+		digits = max(digits, 1-exponent)
+	}
+	if digits > 38 {
+		return result, 0, 0, fmt.Errorf("number %s exceeds maximum precision of 38 (%d)", dec.String(), digits)
 	}
-	if precision > 38 {
-		return result, precision, scale, fmt.Errorf("number %s exceeds maximum precision of 38 (%d)", dec.String(), precision)
+	precision = int32(digits)
+	if exponent < 0 {
+		scale = int32(-exponent)
 	}
 
 	coefficient := dec.Coeff
-- 
2.43.0


From 86727b6f79a40e38beea928716841b301b85d920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:33 +0000
Subject: [PATCH 46/85] fix: trim the spaces around a decimal string

---
 expr/decimal_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr/decimal_util.go b/expr/decimal_util.go
index 76970ca..b7e03f7 100644
--- a/expr/decimal_util.go
+++ b/expr/decimal_util.go
@@ -19,7 +19,7 @@ var decimalPattern = regexp.MustCompile(`^[+-]?\d*(\.\d*)?([eE][+-]?\d*)?$`)
 func DecimalStringToBytes(decimalStr string) ([16]byte, int32, int32, error) {
 	var result [16]byte
 
-	strings.Trim(decimalStr, " ")
+	decimalStr = strings.Trim(decimalStr, " ")
 	if !decimalPattern.MatchString(decimalStr) {
 		return result, 0, 0, fmt.Errorf("invalid decimal string")
 	}
-- 
2.43.0


From 360a5f8d1b14901ad372cb144306366439bfbc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:40 +0000
Subject: [PATCH 47/85] fix: keep the type variation when a decimal literal is
 given another type

---
 expr/literals.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/expr/literals.go b/expr/literals.go
index df5f0ca..b32daa9 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -725,7 +725,15 @@ func newDecimalWithType(literal *ProtoLiteral, decType *types.DecimalType) (Lite
 	if err != nil {
 		return nil, err
 	}
-	return NewLiteral[*types.Decimal](&types.Decimal{Value: decimalBytes[:16], Precision: precision, Scale: scale}, decType.GetNullability() == types.NullabilityNullable)
+	return &ProtoLiteral{
+		Value: decimalBytes[:16],
+		Type: &types.DecimalType{
+			Nullability:      decType.Nullability,
+			TypeVariationRef: decType.TypeVariationRef,
+			Precision:        precision,
+			Scale:            scale,
+		},
+	}, nil
 }
 
 func newVarCharWithType(literal *ProtoLiteral, vcharType *types.VarCharType) (Literal, error) {
-- 
2.43.0


From 975c7b175f67bf9dbbf2d40601294f941273b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:36 +0000
Subject: [PATCH 48/85] fix: reject a two's complement decimal that exceeds its
 precision

---
 literal/utils.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/literal/utils.go b/literal/utils.go
index 01041fe..4d8673f 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -2,7 +2,9 @@ package literal
 
 import (
 	"fmt"
+	"math/big"
 	"regexp"
+	"slices"
 	"strconv"
 	"time"
 
@@ -310,6 +312,15 @@ func NewDecimalFromTwosComplement(twosComplement []byte, precision, scale int32,
 	if scale < 0 || scale > precision {
 		return nil, fmt.Errorf("scale must be in range [0, precision]")
 	}
+	bigEndian := slices.Clone(twosComplement)
+	slices.Reverse(bigEndian)
+	unscaled := new(big.Int).SetBytes(bigEndian)
+	if bigEndian[0]&0x80 != 0 {
+		unscaled.Sub(unscaled, new(big.Int).Lsh(big.NewInt(1), 128))
+	}
+	if apd.NumDigits(new(apd.BigInt).SetMathBigInt(unscaled)) > int64(precision) {
+		return nil, fmt.Errorf("value %s exceeds precision %d", unscaled, precision)
+	}
 	return expr.NewLiteral(&types.Decimal{Value: twosComplement, Precision: precision, Scale: scale}, nullable)
 
 }
-- 
2.43.0


From ac79f74c0a53966a5920e5280168c2dc6d169a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:22 +0000
Subject: [PATCH 49/85] fix: keep an emit mapping without columns when decoding
 a relation

---
 plan/common.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plan/common.go b/plan/common.go
index 6890c0d..b3dff02 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -136,7 +136,12 @@ func (rc *RelCommon) fromProtoCommon(c *proto.RelCommon) {
 	rc.advExtension = c.AdvancedExtension
 
 	if emit, ok := c.GetEmitKind().(*proto.RelCommon_Emit_); ok {
-		rc.mapping = emit.Emit.OutputMapping
+		// An emit without indices is decoded with a nil slice, but a nil mapping
+		// means that all columns are output.
+		rc.mapping = emit.Emit.GetOutputMapping()
+		if rc.mapping == nil {
+			rc.mapping = []int32{}
+		}
 	} else {
 		rc.mapping = nil
 	}
-- 
2.43.0


From 3a10850a7d8437dbf0bdfca3f3aceff81983806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:15 +0000
Subject: [PATCH 50/85] fix: keep the output mode of a write relation when
 encoding and decoding it

---
 plan/plan.go      |  3 +++
 plan/relations.go | 15 +++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/plan/plan.go b/plan/plan.go
index 43fbb1b..e933f70 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -909,6 +909,9 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			input:       input,
 			outputMode:  rel.Write.Output,
 		}
+		if out.outputMode == OutputModeUnspecified {
+			out.outputMode = defaultOutputMode(out.op)
+		}
 		if rel.Write.Common != nil {
 			out.fromProtoCommon(rel.Write.Common)
 		}
diff --git a/plan/relations.go b/plan/relations.go
index 4f501c6..9a368db 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -2264,6 +2264,15 @@ const (
 	OutputModeModifiedRecords = proto.WriteRel_OUTPUT_MODE_MODIFIED_RECORDS
 )
 
+// defaultOutputMode is the output mode of a write relation which does not
+// specify one.
+func defaultOutputMode(op WriteOp) OutputMode {
+	if op == WriteOpCTAS {
+		return OutputModeModifiedRecords
+	}
+	return OutputModeNoOutput
+}
+
 // NamedTableWriteRel is a relational operator that writes data to a table. The list of strings
 // that make up the names are to represent namespacing (e.g. mydb.mytable).
 // This assumes a shared catalog between systems exchanging a message.
@@ -2311,6 +2320,11 @@ func (wr *NamedTableWriteRel) OutputMode() OutputMode {
 }
 
 func (wr *NamedTableWriteRel) ToProto() *proto.Rel {
+	output := wr.outputMode
+	if output == defaultOutputMode(wr.op) {
+		output = OutputModeUnspecified
+	}
+
 	return &proto.Rel{
 		RelType: &proto.Rel_Write{
 			Write: &proto.WriteRel{
@@ -2324,6 +2338,7 @@ func (wr *NamedTableWriteRel) ToProto() *proto.Rel {
 				TableSchema: wr.tableSchema.ToProto(),
 				Op:          wr.op,
 				Input:       wr.input.ToProto(),
+				Output:      output,
 			},
 		},
 	}
-- 
2.43.0


From 632f39d68dba757024814c9a22180ebdd82d6f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:34 +0000
Subject: [PATCH 51/85] fix: the columns of a hash or merge join depend on its
 join type

---
 plan/plan.go      |  4 ++--
 plan/relations.go | 30 ++++++++++++++++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/plan/plan.go b/plan/plan.go
index e933f70..ab513c6 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -852,7 +852,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.HashJoin.Common)
 
 		if rel.HashJoin.PostJoinFilter != nil {
-			base := out.RecordType()
+			base := leftBase.Concat(rightBase)
 			out.postJoinFilter, err = expr.ExprFromProto(rel.HashJoin.PostJoinFilter, &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting post join filter for HashJoinRel: %w", err)
@@ -889,7 +889,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.MergeJoin.Common)
 
 		if rel.MergeJoin.PostJoinFilter != nil {
-			base := out.RecordType()
+			base := leftBase.Concat(rightBase)
 			out.postJoinFilter, err = expr.ExprFromProto(rel.MergeJoin.PostJoinFilter, &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting post join filter for MergeJoin: %w", err)
diff --git a/plan/relations.go b/plan/relations.go
index 9a368db..99e86f9 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1820,6 +1820,32 @@ const (
 	HashMergeRightAnti
 )
 
+// outputSchema returns the columns that a join of this type outputs.
+func (t HashMergeJoinType) outputSchema(left, right types.RecordType) types.RecordType {
+	switch t {
+	case HashMergeLeftSemi, HashMergeLeftAnti:
+		return left
+	case HashMergeRightSemi, HashMergeRightAnti:
+		return right
+	case HashMergeLeft:
+		return left.Concat(nullableColumns(right))
+	case HashMergeRight:
+		return nullableColumns(left).Concat(right)
+	case HashMergeOuter:
+		return nullableColumns(left).Concat(nullableColumns(right))
+	}
+	return left.Concat(right)
+}
+
+// nullableColumns returns a copy of the record type with nullable columns.
+func nullableColumns(r types.RecordType) types.RecordType {
+	out := make([]types.Type, r.FieldCount())
+	for i, t := range r.Types() {
+		out[i] = t.WithNullability(types.NullabilityNullable)
+	}
+	return *types.NewRecordTypeFromTypes(out)
+}
+
 // SimpleComparisonType describes one of the predefined comparison behaviors
 // used by a ComparisonJoinKey.
 type SimpleComparisonType = proto.ComparisonJoinKey_SimpleComparisonType
@@ -2026,7 +2052,7 @@ type HashJoinRel struct {
 }
 
 func (hr *HashJoinRel) directOutputSchema() types.RecordType {
-	return hr.left.RecordType().Concat(hr.right.RecordType())
+	return hr.joinType.outputSchema(hr.left.RecordType(), hr.right.RecordType())
 }
 
 func (hr *HashJoinRel) RecordType() types.RecordType {
@@ -2143,7 +2169,7 @@ type MergeJoinRel struct {
 }
 
 func (mr *MergeJoinRel) directOutputSchema() types.RecordType {
-	return mr.left.RecordType().Concat(mr.right.RecordType())
+	return mr.joinType.outputSchema(mr.left.RecordType(), mr.right.RecordType())
 }
 
 func (mr *MergeJoinRel) RecordType() types.RecordType {
-- 
2.43.0


From e9c3db01ae669c91c11bf8d0503f3272d3dd0924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:03 +0000
Subject: [PATCH 52/85] fix: keep the root relation of a plan that has other
 relations

---
 plan/builders.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plan/builders.go b/plan/builders.go
index b63af38..6bf37c2 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -781,7 +781,11 @@ func (b *builder) PlanWithBindings(root Rel, rootNames []string, expectedTypeURL
 	}
 
 	for i, o := range others {
-		relations[i].rel = o
+		if o == nil {
+			return nil, fmt.Errorf("%w: other relations of a plan must not be nil",
+				substraitgo.ErrInvalidRel)
+		}
+		relations[i+1].rel = o
 	}
 
 	reg := b.reg
-- 
2.43.0


From 343e04cb58c5402c61e9062af2198a2e1d69093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:29 +0000
Subject: [PATCH 53/85] fix: derive the columns of an aggregate with several
 grouping sets as specified

---
 plan/relations.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index 99e86f9..38ce7b5 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1135,19 +1135,29 @@ type AggregateRel struct {
 }
 
 func (ar *AggregateRel) directOutputSchema() types.RecordType {
-	groupTypes := make([]types.Type, 0, len(ar.groupingReferences)+len(ar.measures))
-	for _, g := range ar.groupingReferences {
-		for _, e := range g {
-			expression := ar.groupingExpressions[e]
-			groupTypes = append(groupTypes, expression.GetType())
+	outTypes := make([]types.Type, 0, len(ar.groupingExpressions)+len(ar.measures)+1)
+	for i, e := range ar.groupingExpressions {
+		t := e.GetType()
+		for _, g := range ar.groupingReferences {
+			// a key that is missing in some grouping set is null for its records
+			if !slices.Contains(g, uint32(i)) {
+				t = t.WithNullability(types.NullabilityNullable)
+				break
+			}
 		}
+		outTypes = append(outTypes, t)
 	}
 
 	for _, m := range ar.measures {
-		groupTypes = append(groupTypes, m.measure.GetType())
+		outTypes = append(outTypes, m.measure.GetType())
+	}
+
+	if len(ar.groupingReferences) > 1 {
+		// the index of the grouping set that a record belongs to
+		outTypes = append(outTypes, &types.Int32Type{Nullability: types.NullabilityRequired})
 	}
 
-	return *types.NewRecordTypeFromTypes(groupTypes)
+	return *types.NewRecordTypeFromTypes(outTypes)
 }
 
 func (ar *AggregateRel) RecordType() types.RecordType {
-- 
2.43.0


From 0e9b5968c670ced99345a834f9a7d298f411f9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:32 +0000
Subject: [PATCH 54/85] fix: check the mapping of a write relation against its
 own columns

---
 plan/builders.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index 6bf37c2..08107be 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -340,21 +340,23 @@ func (b *builder) CreateTableAsSelectRemap(input Rel, remap []int32, tableName [
 		return nil, errNilInputRel
 	}
 
-	nOutput := input.RecordType().FieldCount()
-	for _, idx := range remap {
-		if idx < 0 || idx >= nOutput {
-			return nil, errOutputMappingOutOfRange
-		}
-	}
-
-	return &NamedTableWriteRel{
+	out := &NamedTableWriteRel{
 		RelCommon:   RelCommon{mapping: remap},
 		names:       tableName,
 		tableSchema: schema,
 		op:          WriteOpCTAS,
 		input:       input,
 		outputMode:  OutputModeModifiedRecords,
-	}, nil
+	}
+
+	nOutput := out.directOutputSchema().FieldCount()
+	for _, idx := range remap {
+		if idx < 0 || idx >= nOutput {
+			return nil, errOutputMappingOutOfRange
+		}
+	}
+
+	return out, nil
 }
 
 func (b *builder) CreateTableAsSelect(input Rel, tableName []string, schema types.NamedStruct) (*NamedTableWriteRel, error) {
@@ -502,21 +504,23 @@ func (b *builder) NamedWriteRemap(input Rel, op WriteOp, tableName []string, sch
 		return nil, errNilInputRel
 	}
 
-	nOutput := input.RecordType().FieldCount()
-	for _, idx := range remap {
-		if idx < 0 || idx >= nOutput {
-			return nil, errOutputMappingOutOfRange
-		}
-	}
-
-	return &NamedTableWriteRel{
+	out := &NamedTableWriteRel{
 		RelCommon:   RelCommon{mapping: remap},
 		names:       tableName,
 		tableSchema: schema,
 		op:          op,
 		input:       input,
 		outputMode:  OutputModeNoOutput,
-	}, nil
+	}
+
+	nOutput := out.directOutputSchema().FieldCount()
+	for _, idx := range remap {
+		if idx < 0 || idx >= nOutput {
+			return nil, errOutputMappingOutOfRange
+		}
+	}
+
+	return out, nil
 }
 
 func (b *builder) NamedWrite(input Rel, op WriteOp, tableName []string, schema types.NamedStruct) (*NamedTableWriteRel, error) {
-- 
2.43.0


From f7b70405677f80ff5e4f759d003cc532172f6562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:47 +0000
Subject: [PATCH 55/85] fix: check the mapping of a filter against the columns
 its input emits

---
 plan/builders.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plan/builders.go b/plan/builders.go
index 08107be..539b93b 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -423,7 +423,7 @@ func (b *builder) FilterRemap(input Rel, condition expr.Expression, remap []int3
 			substraitgo.ErrInvalidArg, condition.GetType())
 	}
 
-	noutput := input.directOutputSchema().FieldCount()
+	noutput := input.RecordType().FieldCount()
 	for _, idx := range remap {
 		if idx < 0 || idx >= noutput {
 			return nil, errOutputMappingOutOfRange
-- 
2.43.0


From 175546ff26f7773062363bbe814b7bd62c635202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 56/85] fix: reject field references behind the last column and
 to nil relations

---
 plan/builders.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index 539b93b..dc636b6 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -37,7 +37,7 @@ type Builder interface {
 	// relation indicated by the passed in index. This will ensure the output
 	// type is properly propagated based on the reference.
 	//
-	// Will return an error if the index is < 0 or > the number of output fields.
+	// Will return an error if the index is < 0 or >= the number of output fields.
 	RootFieldRef(input Rel, index int32) (*expr.FieldReference, error)
 	// JoinedRecordFieldRef constructs a root field reference for the full tuple of
 	// the inputs to a join, to construct an expression that is viable to use as
@@ -59,7 +59,7 @@ type Builder interface {
 	AggregateFn(nameSpace, key string, opts []*types.FunctionOption, args ...types.FuncArg) (*expr.AggregateFunction, error)
 	// SortFields is a convenience method to construct a list of sort fields
 	// from the column indices of an existing relation. This will return an error
-	// if any of the indices are < 0 or > the number of columns in the output
+	// if any of the indices are < 0 or >= the number of columns in the output
 	// of the relation. This will use types.SortAscNullsLast as the sort kind
 	// for each field in the returned slice.
 	SortFields(input Rel, indices ...int32) ([]expr.SortField, error)
@@ -241,8 +241,12 @@ func (b *builder) UserDefinedType(nameSpace, typeName string, params ...types.Ty
 }
 
 func (b *builder) JoinedRecordFieldRef(left, right Rel, index int32) (*expr.FieldReference, error) {
-	baseTypes := append(left.RecordType().Types(), right.RecordType().Types()...)
-	if index < 0 || index > int32(len(baseTypes)) {
+	if left == nil || right == nil {
+		return nil, errNilInputRel
+	}
+
+	baseTypes := slices.Concat(left.RecordType().Types(), right.RecordType().Types())
+	if index < 0 || index >= int32(len(baseTypes)) {
 		return nil, fmt.Errorf("%w: cannot create field ref index %d, only %d fields to reference",
 			substraitgo.ErrInvalidArg, index, len(baseTypes))
 	}
@@ -251,8 +255,12 @@ func (b *builder) JoinedRecordFieldRef(left, right Rel, index int32) (*expr.Fiel
 }
 
 func (b *builder) RootFieldRef(input Rel, index int32) (*expr.FieldReference, error) {
+	if input == nil {
+		return nil, errNilInputRel
+	}
+
 	base := input.RecordType()
-	if index < 0 || index > base.FieldCount() {
+	if index < 0 || index >= base.FieldCount() {
 		return nil, fmt.Errorf("%w: cannot create field ref index %d, only %d fields in rel",
 			substraitgo.ErrInvalidArg, index, base.FieldCount())
 	}
-- 
2.43.0


From 9084200c2e907096135b5daa61c7f1a3859e44c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:32 +0000
Subject: [PATCH 57/85] fix: remapping a relation without inputs changed the
 relation itself

---
 plan/relations.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index 38ce7b5..519ff62 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -243,7 +243,8 @@ func (n *NamedTableReadRel) ToProto() *proto.Rel {
 }
 
 func (n *NamedTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return n, nil
+	out := *n
+	return &out, nil
 }
 
 func (n *NamedTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -302,7 +303,8 @@ func (v *VirtualTableReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (v *VirtualTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return v, nil
+	out := *v
+	return &out, nil
 }
 
 func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -373,7 +375,8 @@ func (e *ExtensionTableReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (e *ExtensionTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return e, nil
+	out := *e
+	return &out, nil
 }
 
 func (e *ExtensionTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -479,7 +482,8 @@ func (n *IcebergTableReadRel) ToProto() *proto.Rel {
 }
 
 func (n *IcebergTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return n, nil
+	out := *n
+	return &out, nil
 }
 
 func (n *IcebergTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -672,7 +676,8 @@ func (lf *LocalFileReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (lf *LocalFileReadRel) Copy(_ ...Rel) (Rel, error) {
-	return lf, nil
+	out := *lf
+	return &out, nil
 }
 
 func (lf *LocalFileReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -1736,7 +1741,8 @@ func (el *ExtensionLeafRel) GetInputs() []Rel {
 }
 
 func (el *ExtensionLeafRel) Copy(_ ...Rel) (Rel, error) {
-	return el, nil
+	out := *el
+	return &out, nil
 }
 
 func (el *ExtensionLeafRel) CopyWithExpressionRewrite(_ RewriteFunc, _ ...Rel) (Rel, error) {
-- 
2.43.0


From cf6811f30c9bdd74a7f46aae976cdb67a2b8e93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:22 +0000
Subject: [PATCH 58/85] fix: reject nil expressions in projections and sorts

---
 plan/builders.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index dc636b6..6d87e95 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -292,6 +292,12 @@ func (b *builder) ProjectRemap(input Rel, remap []int32, exprs ...expr.Expressio
 		return nil, fmt.Errorf("%w: must provide at least one expression for project relation", substraitgo.ErrInvalidRel)
 	}
 
+	for _, e := range exprs {
+		if e == nil {
+			return nil, fmt.Errorf("%w: cannot use nil expression in project relation", substraitgo.ErrInvalidRel)
+		}
+	}
+
 	noutput := input.RecordType().FieldCount() + int32(len(exprs))
 	for _, idx := range remap {
 		if idx < 0 || idx >= noutput {
@@ -698,6 +704,12 @@ func (b *builder) SortRemap(input Rel, remap []int32, sorts ...expr.SortField) (
 		return nil, fmt.Errorf("%w: must provide at least one SortField for sort relation", substraitgo.ErrInvalidRel)
 	}
 
+	for _, s := range sorts {
+		if s.Expr == nil {
+			return nil, fmt.Errorf("%w: cannot use nil expression in sort relation", substraitgo.ErrInvalidRel)
+		}
+	}
+
 	return &SortRel{
 		RelCommon: RelCommon{mapping: remap},
 		input:     input,
-- 
2.43.0


From 55f135e9142c2ccacc1ef14020bee886a60db23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:25 +0000
Subject: [PATCH 59/85] fix: reject virtual tables with rows of different
 widths or nil values

---
 plan/builders.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index 6d87e95..7a200d6 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -597,9 +597,17 @@ func (b *builder) VirtualTableFromExprRemap(fieldNames []string, remap []int32,
 	}
 
 	nfields := len(fieldNames)
-	if len(values[0]) != nfields {
-		return nil, fmt.Errorf("%w: mismatched number of fields (%d) and literal values (%d) in virtual table",
-			substraitgo.ErrInvalidRel, nfields, len(values[0]))
+	for _, row := range values {
+		if len(row) != nfields {
+			return nil, fmt.Errorf("%w: mismatched number of fields (%d) and literal values (%d) in virtual table",
+				substraitgo.ErrInvalidRel, nfields, len(row))
+		}
+
+		for j, v := range row {
+			if v == nil {
+				return nil, fmt.Errorf("%w: nil value in col %d of virtual table", substraitgo.ErrInvalidRel, j)
+			}
+		}
 	}
 
 	for _, idx := range remap {
-- 
2.43.0


From 63c1ba6c4eaa28760b7e14c291fe9a4cc76dca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:55 +0000
Subject: [PATCH 60/85] fix: reject measures without an aggregate function

---
 plan/builders.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index 7a200d6..026e620 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -208,6 +208,7 @@ var (
 	errNilInputRel             = fmt.Errorf("%w: input Relation must not be nil", substraitgo.ErrInvalidRel)
 	errNoGroupingOrMeasure     = fmt.Errorf("%w: must have at least one grouping expression or measure for AggregateRel", substraitgo.ErrInvalidRel)
 	errNoGroupingExpression    = fmt.Errorf("%w: groupings cannot contain empty expression list or nil expression", substraitgo.ErrInvalidRel)
+	errNilMeasure              = fmt.Errorf("%w: measures cannot contain nil aggregate function", substraitgo.ErrInvalidRel)
 	errInvalidGroupingIndex    = fmt.Errorf("%w: groupingReferences contains invalid indices", substraitgo.ErrInvalidRel)
 	errCubeGroupingSizeLimit   = fmt.Errorf("cannot exceed %d grouping references for AddCube", maxGroupingSize)
 	errNilDefinition           = fmt.Errorf("%w: definition must not be nil", substraitgo.ErrInvalidArg)
@@ -965,6 +966,12 @@ func (arb *AggregateRelBuilder) validate() error {
 		return errNoGroupingExpression
 	}
 
+	if slices.ContainsFunc(arb.measures, func(m AggRelMeasure) bool {
+		return m.measure == nil
+	}) {
+		return errNilMeasure
+	}
+
 	if slices.ContainsFunc(arb.groupingExpressions, func(e expr.Expression) bool {
 		return e == nil
 	}) {
-- 
2.43.0


From a4cdb2a2849e8c52b71e73217c7abc5147ac6459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:06 +0000
Subject: [PATCH 61/85] fix: reject scalar subqueries that do not return one
 column

---
 plan/builders.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index 026e620..a5bb4e2 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -1038,6 +1038,12 @@ func (b *builder) ScalarSubquery(input Rel) (*ScalarSubquery, error) {
 		return nil, errNilInputRel
 	}
 
+	schema := input.RecordType()
+	if schema.FieldCount() != 1 {
+		return nil, fmt.Errorf("%w: scalar subquery must return exactly one column, got %d",
+			substraitgo.ErrInvalidExpr, schema.FieldCount())
+	}
+
 	return NewScalarSubquery(input), nil
 }
 
-- 
2.43.0


From 880ddf8b06ac1a9c84a3c8f1502233d55cb85245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:21 +0000
Subject: [PATCH 62/85] fix: reject parameter bindings without a value

---
 plan/common.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plan/common.go b/plan/common.go
index b3dff02..e48c6ba 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -49,6 +49,11 @@ func ValidateParameterBindings(root Rel, bindings []DynamicParameterBinding) err
 				substraitgo.ErrInvalidPlan, b.ParameterAnchor)
 		}
 
+		if b.Value == nil {
+			return fmt.Errorf("%w: parameter binding for anchor %d has no value",
+				substraitgo.ErrInvalidPlan, b.ParameterAnchor)
+		}
+
 		// Compare ignoring nullability.
 		bindingType := b.Value.GetType().WithNullability(types.NullabilityUnspecified)
 		expectedType := declaredType.WithNullability(types.NullabilityUnspecified)
-- 
2.43.0


From 842c507c62d14f6484d9d9d556f78495cb60baef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:25 +0000
Subject: [PATCH 63/85] fix: check the names and types of a virtual table
 without rows

---
 plan/builders.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index a5bb4e2..21b86f3 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -654,6 +654,10 @@ func (b *builder) VirtualTable(fields []string, values ...expr.StructLiteralValu
 }
 
 func (b *builder) EmptyVirtualTable(fieldNames []string, typeList []types.Type) (*VirtualTableReadRel, error) {
+	if slices.Contains(typeList, nil) {
+		return nil, fmt.Errorf("%w: cannot use nil type in virtual table", substraitgo.ErrInvalidRel)
+	}
+
 	baseSchema := types.NamedStruct{
 		Names: fieldNames,
 		Struct: types.StructType{
@@ -661,6 +665,12 @@ func (b *builder) EmptyVirtualTable(fieldNames []string, typeList []types.Type)
 			Types:       typeList,
 		},
 	}
+
+	if expected := baseSchema.Struct.DepthFirstNameCount(); len(fieldNames) != expected {
+		return nil, fmt.Errorf("%w: mismatched number of field names (%d) and fields (%d) in virtual table",
+			substraitgo.ErrInvalidRel, len(fieldNames), expected)
+	}
+
 	return &VirtualTableReadRel{
 		baseReadRel: baseReadRel{
 			baseSchema: baseSchema,
-- 
2.43.0


From a723185ff40226b2a22ce8f8096a2d2ee752c6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:02 +0000
Subject: [PATCH 64/85] fix: rewrite the values of a virtual table without
 filters

---
 plan/relations.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index 519ff62..936c80c 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -312,11 +312,6 @@ func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc,
 	if err != nil {
 		return nil, err
 	}
-	if slices.Equal(newExprs, v.getExpressions()) {
-		return v, nil
-	}
-	vtr := *v
-	vtr.updateFilters(newExprs)
 	valuesUnchanged := true
 	newValues := make([]expr.VirtualTableExpressionValue, len(v.values))
 	for i, val := range v.values {
@@ -326,11 +321,16 @@ func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc,
 			if err != nil {
 				return nil, err
 			}
-			valuesUnchanged = valuesUnchanged && newExpr.Equals(e)
+			valuesUnchanged = valuesUnchanged && newExpr == e
 			newExprs[j] = newExpr
 		}
 		newValues[i] = newExprs
 	}
+	if valuesUnchanged && slices.Equal(newExprs, v.getExpressions()) {
+		return v, nil
+	}
+	vtr := *v
+	vtr.updateFilters(newExprs)
 	if !valuesUnchanged {
 		vtr.values = newValues
 	}
-- 
2.43.0


From 952e631f08679501722f6a3260ba49166ece3710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:05 +0000
Subject: [PATCH 65/85] fix: rewrite the sorts of aggregate measures

---
 plan/relations.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plan/relations.go b/plan/relations.go
index 936c80c..9c3a87c 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1269,6 +1269,14 @@ func (ar *AggregateRel) rewriteAggregateFunc(rewriteFunc RewriteFunc, f *expr.Ag
 			argsAreEqual = argsAreEqual && exp == newExp
 		}
 	}
+	for i, s := range f.Sorts {
+		newExp, err := rewriteFunc(s.Expr)
+		if err != nil {
+			return nil, err
+		}
+		newF.Sorts[i].Expr = newExp
+		argsAreEqual = argsAreEqual && s.Expr == newExp
+	}
 	if argsAreEqual {
 		return f, nil
 	}
-- 
2.43.0


From aac4a7832543bbceb9672b33ecc1c844b9cd5715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:08 +0000
Subject: [PATCH 66/85] fix: set and multi-input extension relations shared
 their list of inputs with callers

---
 plan/relations.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index 9c3a87c..e691607 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1569,12 +1569,12 @@ func (s *SetRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (s *SetRel) GetInputs() []Rel {
-	return s.inputs
+	return slices.Clone(s.inputs)
 }
 
 func (s *SetRel) Copy(newInputs ...Rel) (Rel, error) {
 	set := *s
-	set.inputs = newInputs
+	set.inputs = slices.Clone(newInputs)
 	return &set, nil
 }
 
@@ -1810,12 +1810,12 @@ func (em *ExtensionMultiRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (em *ExtensionMultiRel) GetInputs() []Rel {
-	return em.inputs
+	return slices.Clone(em.inputs)
 }
 
 func (em *ExtensionMultiRel) Copy(newInputs ...Rel) (Rel, error) {
 	proj := *em
-	proj.inputs = newInputs
+	proj.inputs = slices.Clone(newInputs)
 	return &proj, nil
 }
 
-- 
2.43.0


From 741dcd43c09a856a0584baea9ae5c9a054355b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:30 +0000
Subject: [PATCH 67/85] fix: rewrite the keys of hash and merge joins

---
 plan/relations.go | 46 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index e691607..73291fe 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1944,6 +1944,39 @@ func (k *ComparisonJoinKey) ToProto() *proto.ComparisonJoinKey {
 	}
 }
 
+// rewriteComparisonJoinKeys rewrites the field references of join keys. Keys
+// that do not change are kept.
+func rewriteComparisonJoinKeys(rewriteFunc RewriteFunc, keys []*ComparisonJoinKey) ([]*ComparisonJoinKey, error) {
+	rewrite := func(ref *expr.FieldReference) (*expr.FieldReference, error) {
+		newExpr, err := rewriteFunc(ref)
+		if err != nil {
+			return nil, err
+		}
+		newRef, ok := newExpr.(*expr.FieldReference)
+		if !ok {
+			return nil, fmt.Errorf("%w: join keys must be field references, got %T",
+				substraitgo.ErrInvalidRel, newExpr)
+		}
+		return newRef, nil
+	}
+
+	out := slices.Clone(keys)
+	for i, k := range keys {
+		left, err := rewrite(k.left)
+		if err != nil {
+			return nil, err
+		}
+		right, err := rewrite(k.right)
+		if err != nil {
+			return nil, err
+		}
+		if left != k.left || right != k.right {
+			out[i] = NewComparisonJoinKey(left, right, k.comparison)
+		}
+	}
+	return out, nil
+}
+
 // comparisonJoinKeysToProto converts a list of join keys to their proto form.
 func comparisonJoinKeysToProto(keys []*ComparisonJoinKey) []*proto.ComparisonJoinKey {
 	out := make([]*proto.ComparisonJoinKey, len(keys))
@@ -2166,12 +2199,17 @@ func (hr *HashJoinRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, newInp
 	if err != nil {
 		return nil, err
 	}
-	if newExpr == hr.postJoinFilter && slices.Equal(newInputs, hr.GetInputs()) {
+	newKeys, err := rewriteComparisonJoinKeys(rewriteFunc, hr.keys)
+	if err != nil {
+		return nil, err
+	}
+	if newExpr == hr.postJoinFilter && slices.Equal(newKeys, hr.keys) && slices.Equal(newInputs, hr.GetInputs()) {
 		return hr, nil
 	}
 	join := *hr
 	join.left, join.right = newInputs[0], newInputs[1]
 	join.postJoinFilter = newExpr
+	join.keys = newKeys
 	return &join, nil
 }
 
@@ -2283,7 +2321,11 @@ func (mr *MergeJoinRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, newIn
 	if err != nil {
 		return nil, err
 	}
-	if newExpr == mr.postJoinFilter && slices.Equal(newInputs, mr.GetInputs()) {
+	newKeys, err := rewriteComparisonJoinKeys(rewriteFunc, mr.keys)
+	if err != nil {
+		return nil, err
+	}
+	if newExpr == mr.postJoinFilter && slices.Equal(newKeys, mr.keys) && slices.Equal(newInputs, mr.GetInputs()) {
 		return mr, nil
 	}
 	merge := *mr
-- 
2.43.0


From 200c7526c0e9854d3a8d9f818ab19b61dc470305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:13 +0000
Subject: [PATCH 68/85] fix: rewrite the keys of merge joins

---
 plan/relations.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plan/relations.go b/plan/relations.go
index 73291fe..85a079d 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -2331,6 +2331,7 @@ func (mr *MergeJoinRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, newIn
 	merge := *mr
 	merge.left, merge.right = newInputs[0], newInputs[1]
 	merge.postJoinFilter = newExpr
+	merge.keys = newKeys
 	return &merge, nil
 }
 
-- 
2.43.0


From fb6b2a9f5fad698082512441b9471472b31c195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:06 +0000
Subject: [PATCH 69/85] fix: find dynamic parameters in every expression of a
 relation

---
 plan/common.go | 61 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 3 deletions(-)

diff --git a/plan/common.go b/plan/common.go
index e48c6ba..18f1226 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -91,7 +91,31 @@ func collectDynamicParams(rel Rel, out map[uint32]types.Type) {
 
 // walkRelExprs invokes fn for every top-level expression in a relation.
 func walkRelExprs(rel Rel, fn func(expr.Expression)) {
+	// optional expressions are nil if they are not set
+	opt := func(e expr.Expression) {
+		if e != nil {
+			fn(e)
+		}
+	}
+	keys := func(keys []*ComparisonJoinKey) {
+		for _, k := range keys {
+			fn(k.Left())
+			fn(k.Right())
+		}
+	}
+
+	if r, ok := rel.(ReadRel); ok {
+		opt(r.Filter())
+		opt(r.BestEffortFilter())
+	}
+
 	switch r := rel.(type) {
+	case *VirtualTableReadRel:
+		for _, row := range r.Values() {
+			for _, e := range row {
+				fn(e)
+			}
+		}
 	case *FilterRel:
 		fn(r.Condition())
 	case *ProjectRel:
@@ -100,13 +124,44 @@ func walkRelExprs(rel Rel, fn func(expr.Expression)) {
 		}
 	case *JoinRel:
 		fn(r.Expr())
-		if pjf := r.PostJoinFilter(); pjf != nil {
-			fn(pjf)
-		}
+		opt(r.PostJoinFilter())
+	case *HashJoinRel:
+		keys(r.Keys())
+		opt(r.PostJoinFilter())
+	case *MergeJoinRel:
+		keys(r.Keys())
+		opt(r.PostJoinFilter())
 	case *SortRel:
 		for _, sf := range r.Sorts() {
 			fn(sf.Expr)
 		}
+	case *AggregateRel:
+		for _, e := range r.GroupingExpressions() {
+			fn(e)
+		}
+		for _, m := range r.Measures() {
+			for i := 0; i < m.Measure().NArgs(); i++ {
+				if e, ok := m.Measure().Arg(i).(expr.Expression); ok {
+					fn(e)
+				}
+			}
+			for _, sf := range m.Measure().Sorts {
+				fn(sf.Expr)
+			}
+			opt(m.Filter())
+		}
+	case *ExtensionLeafRel:
+		for _, e := range r.Definition().Expressions(r.GetInputs()) {
+			opt(e)
+		}
+	case *ExtensionSingleRel:
+		for _, e := range r.Definition().Expressions(r.GetInputs()) {
+			opt(e)
+		}
+	case *ExtensionMultiRel:
+		for _, e := range r.Definition().Expressions(r.GetInputs()) {
+			opt(e)
+		}
 	}
 }
 
-- 
2.43.0


From 392d14ba9c5694ac2cca09993704f3fc71880577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:25 +0000
Subject: [PATCH 70/85] fix: find dynamic parameters in subqueries and in the
 roots of field references

---
 plan/common.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/plan/common.go b/plan/common.go
index 18f1226..6b95b76 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -68,7 +68,8 @@ func ValidateParameterBindings(root Rel, bindings []DynamicParameterBinding) err
 }
 
 // collectDynamicParams walks a relation tree and records the OutputType
-// of every DynamicParameter expression it encounters.
+// of every DynamicParameter expression it encounters, including those in the
+// relations of subqueries.
 func collectDynamicParams(rel Rel, out map[uint32]types.Type) {
 	if rel == nil {
 		return
@@ -82,8 +83,17 @@ func collectDynamicParams(rel Rel, out map[uint32]types.Type) {
 	// Walk expressions owned by this relation.
 	walkRelExprs(rel, func(e expr.Expression) {
 		walkExpr(e, func(inner expr.Expression) {
-			if dp, ok := inner.(*expr.DynamicParameter); ok {
-				out[dp.ParameterReference] = dp.OutputType
+			switch inner := inner.(type) {
+			case *expr.DynamicParameter:
+				out[inner.ParameterReference] = inner.OutputType
+			case *ScalarSubquery:
+				collectDynamicParams(inner.Input, out)
+			case *InPredicateSubquery:
+				collectDynamicParams(inner.Haystack, out)
+			case *SetPredicateSubquery:
+				collectDynamicParams(inner.Tuples, out)
+			case *SetComparisonSubquery:
+				collectDynamicParams(inner.Right, out)
 			}
 		})
 	})
@@ -171,6 +181,11 @@ func walkExpr(e expr.Expression, fn func(expr.Expression)) {
 		return
 	}
 	fn(e)
+	if ref, ok := e.(*expr.FieldReference); ok {
+		if root, ok := ref.Root.(expr.Expression); ok {
+			walkExpr(root, fn)
+		}
+	}
 	e.Visit(func(child expr.Expression) expr.Expression {
 		walkExpr(child, fn)
 		return child
-- 
2.43.0


From 59263c0b5b52cdcf895a19a06733b45373f81a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:29 +0000
Subject: [PATCH 71/85] fix: find dynamic parameters in all relations of a plan

---
 plan/builders.go |  8 ++++----
 plan/common.go   | 10 +++++++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index 21b86f3..166cdee 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -814,10 +814,6 @@ func (b *builder) PlanWithBindings(root Rel, rootNames []string, expectedTypeURL
 		return nil, err
 	}
 
-	if err := ValidateParameterBindings(root, bindings); err != nil {
-		return nil, err
-	}
-
 	relations := make([]Relation, len(others)+1)
 	relations[0].root = &Root{
 		input: root, names: rootNames,
@@ -831,6 +827,10 @@ func (b *builder) PlanWithBindings(root Rel, rootNames []string, expectedTypeURL
 		relations[i+1].rel = o
 	}
 
+	if err := validateParameterBindings(append([]Rel{root}, others...), bindings); err != nil {
+		return nil, err
+	}
+
 	reg := b.reg
 	reg.SetSubqueryConverter(&ExpressionConverter{ExtensionRegistry: reg})
 	return &Plan{
diff --git a/plan/common.go b/plan/common.go
index 6b95b76..5432ea2 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -33,13 +33,21 @@ type DynamicParameterBinding struct {
 //   - A binding whose value type does not match the parameter's declared type
 //     (ignoring nullability).
 func ValidateParameterBindings(root Rel, bindings []DynamicParameterBinding) error {
+	return validateParameterBindings([]Rel{root}, bindings)
+}
+
+// validateParameterBindings checks bindings against the parameters of all
+// relations of a plan.
+func validateParameterBindings(rels []Rel, bindings []DynamicParameterBinding) error {
 	if len(bindings) == 0 {
 		return nil
 	}
 
 	// Collect all DynamicParameter output types keyed by anchor.
 	paramTypes := make(map[uint32]types.Type)
-	collectDynamicParams(root, paramTypes)
+	for _, rel := range rels {
+		collectDynamicParams(rel, paramTypes)
+	}
 
 	for _, b := range bindings {
 		declaredType, ok := paramTypes[b.ParameterAnchor]
-- 
2.43.0


From 04bd7f3564af18772689fd42ae5f63c66bf92d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:38 +0000
Subject: [PATCH 72/85] fix: report incomplete types when decoding instead of
 panicking

---
 types/types.go | 227 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 157 insertions(+), 70 deletions(-)

diff --git a/types/types.go b/types/types.go
index ac95cfc..6a9a125 100644
--- a/types/types.go
+++ b/types/types.go
@@ -222,209 +222,249 @@ type (
 )
 
 // TypeFromProto returns the appropriate Type object from a protobuf
-// type message.
+// type message. It panics if the message is not a valid type, use
+// TypeFromProtoChecked for messages that may be incomplete.
 func TypeFromProto(t *proto.Type) Type {
-	switch t := t.Kind.(type) {
+	typ, err := TypeFromProtoChecked(t)
+	if err != nil {
+		panic(err)
+	}
+	return typ
+}
+
+// TypesFromProtoChecked returns the Type objects of several protobuf type
+// messages or an error if one of them is not a valid type.
+func TypesFromProtoChecked(ts []*proto.Type) ([]Type, error) {
+	out := make([]Type, len(ts))
+	for i, t := range ts {
+		var err error
+		if out[i], err = TypeFromProtoChecked(t); err != nil {
+			return nil, err
+		}
+	}
+	return out, nil
+}
+
+// TypeFromProtoChecked returns the appropriate Type object from a protobuf
+// type message or an error if the message is not a valid type.
+func TypeFromProtoChecked(t *proto.Type) (Type, error) {
+	switch t := t.GetKind().(type) {
 	case *proto.Type_Bool:
 		return &BooleanType{
 			Nullability:      Nullability(t.Bool.Nullability),
 			TypeVariationRef: t.Bool.TypeVariationReference,
-		}
+		}, nil
 	case *proto.Type_I8_:
 		return &Int8Type{
 			Nullability:      Nullability(t.I8.Nullability),
 			TypeVariationRef: t.I8.TypeVariationReference,
-		}
+		}, nil
 	case *proto.Type_I16_:
 		return &Int16Type{
 			Nullability:      Nullability(t.I16.Nullability),
 			TypeVariationRef: t.I16.TypeVariationReference,
-		}
+		}, nil
 	case *proto.Type_I32_:
 		return &Int32Type{
 			Nullability:      Nullability(t.I32.Nullability),
 			TypeVariationRef: t.I32.TypeVariationReference,
-		}
+		}, nil
 	case *proto.Type_I64_:
 		return &Int64Type{
 			Nullability:      Nullability(t.I64.Nullability),
 			TypeVariationRef: t.I64.TypeVariationReference,
-		}
+		}, nil
 	case *proto.Type_Fp32:
 		return &Float32Type{
 			Nullability:      Nullability(t.Fp32.Nullability),
 			TypeVariationRef: t.Fp32.TypeVariationReference,
-		}
+		}, nil
 	case *proto.Type_Fp64:
 		return &Float64Type{
 			Nullability:      Nullability(t.Fp64.Nullability),
 			TypeVariationRef: t.Fp64.TypeVariationReference,
-		}
+		}, nil
 	case *proto.Type_String_:
 		return &StringType{
 			Nullability:      Nullability(t.String_.Nullability),
 			TypeVariationRef: t.String_.TypeVariationReference,
-		}
+		}, nil
 	case *proto.Type_Binary_:
 		return &BinaryType{
 			Nullability:      Nullability(t.Binary.Nullability),
 			TypeVariationRef: t.Binary.TypeVariationReference,
-		}
+		}, nil
 	case *proto.Type_Timestamp_:
 		return &TimestampType{
 			Nullability:      Nullability(t.Timestamp.Nullability),
 			TypeVariationRef: t.Timestamp.TypeVariationReference,
-		}
+		}, nil
 	case *proto.Type_Date_:
 		return &DateType{
 			Nullability:      Nullability(t.Date.Nullability),
 			TypeVariationRef: t.Date.TypeVariationReference,
-		}
+		}, nil
 	case *proto.Type_Time_:
 		return &TimeType{
 			Nullability:      Nullability(t.Time.Nullability),
 			TypeVariationRef: t.Time.TypeVariationReference,
-		}
+		}, nil
 	case *proto.Type_IntervalYear_:
 		return &IntervalYearType{
 			Nullability:      Nullability(t.IntervalYear.Nullability),
 			TypeVariationRef: t.IntervalYear.TypeVariationReference,
-		}
+		}, nil
 	case *proto.Type_IntervalDay_:
 		var precision = PrecisionMicroSeconds
 		if t.IntervalDay.Precision != nil {
 			var err error
 			precision, err = ProtoToTimePrecision(*t.IntervalDay.Precision)
 			if err != nil {
-				panic(fmt.Sprintf("Invalid precision %v", err))
+				return nil, err
 			}
 		}
 		return &IntervalDayType{
 			Nullability:      Nullability(t.IntervalDay.Nullability),
 			TypeVariationRef: t.IntervalDay.TypeVariationReference,
 			Precision:        precision,
-		}
+		}, nil
 	case *proto.Type_IntervalCompound_:
 		precision, err := ProtoToTimePrecision(t.IntervalCompound.Precision)
 		if err != nil {
-			panic(fmt.Sprintf("Invalid precision %v", err))
+			return nil, err
 		}
 		return IntervalCompoundType{
 			nullability:      Nullability(t.IntervalCompound.Nullability),
 			typeVariationRef: t.IntervalCompound.TypeVariationReference,
 			precision:        precision,
-		}
+		}, nil
 	case *proto.Type_TimestampTz:
 		return &TimestampTzType{
 			Nullability:      Nullability(t.TimestampTz.Nullability),
 			TypeVariationRef: t.TimestampTz.TypeVariationReference,
-		}
+		}, nil
 	case *proto.Type_Uuid:
 		return &UUIDType{
 			Nullability:      Nullability(t.Uuid.Nullability),
 			TypeVariationRef: t.Uuid.TypeVariationReference,
-		}
+		}, nil
 	case *proto.Type_FixedBinary_:
 		return &FixedBinaryType{
 			Nullability:      Nullability(t.FixedBinary.Nullability),
 			TypeVariationRef: t.FixedBinary.TypeVariationReference,
 			Length:           t.FixedBinary.Length,
-		}
+		}, nil
 	case *proto.Type_FixedChar_:
 		return &FixedCharType{
 			Nullability:      Nullability(t.FixedChar.Nullability),
 			TypeVariationRef: t.FixedChar.TypeVariationReference,
 			Length:           t.FixedChar.Length,
-		}
+		}, nil
 	case *proto.Type_Varchar:
 		return &VarCharType{
 			Nullability:      Nullability(t.Varchar.Nullability),
 			TypeVariationRef: t.Varchar.TypeVariationReference,
 			Length:           t.Varchar.Length,
-		}
+		}, nil
 	case *proto.Type_Decimal_:
 		return &DecimalType{
 			Nullability:      Nullability(t.Decimal.Nullability),
 			TypeVariationRef: t.Decimal.TypeVariationReference,
 			Scale:            t.Decimal.Scale,
 			Precision:        t.Decimal.Precision,
-		}
+		}, nil
 	case *proto.Type_PrecisionTime_:
 		precision, err := ProtoToTimePrecision(t.PrecisionTime.Precision)
 		if err != nil {
-			panic(fmt.Sprintf("Invalid precision %v", err))
+			return nil, err
 		}
 		return &PrecisionTimeType{
 			Nullability:      Nullability(t.PrecisionTime.Nullability),
 			TypeVariationRef: t.PrecisionTime.TypeVariationReference,
 			Precision:        precision,
-		}
+		}, nil
 	case *proto.Type_PrecisionTimestamp_:
 		precision, err := ProtoToTimePrecision(t.PrecisionTimestamp.Precision)
 		if err != nil {
-			panic(fmt.Sprintf("Invalid precision %v", err))
+			return nil, err
 		}
 		return &PrecisionTimestampType{
 			Nullability:      Nullability(t.PrecisionTimestamp.Nullability),
 			TypeVariationRef: t.PrecisionTimestamp.TypeVariationReference,
 			Precision:        precision,
-		}
+		}, nil
 	case *proto.Type_PrecisionTimestampTz:
 		precision, err := ProtoToTimePrecision(t.PrecisionTimestampTz.Precision)
 		if err != nil {
-			panic(fmt.Sprintf("Invalid precision %v", err))
+			return nil, err
 		}
 		return &PrecisionTimestampTzType{PrecisionTimestampType{
 			Nullability:      Nullability(t.PrecisionTimestampTz.Nullability),
 			TypeVariationRef: t.PrecisionTimestampTz.TypeVariationReference,
 			Precision:        precision,
-		}}
+		}}, nil
 	case *proto.Type_Struct_:
-		fields := make([]Type, len(t.Struct.Types))
-		for i, f := range t.Struct.Types {
-			fields[i] = TypeFromProto(f)
+		fields, err := TypesFromProtoChecked(t.Struct.Types)
+		if err != nil {
+			return nil, err
 		}
 		return &StructType{
 			Nullability:      Nullability(t.Struct.Nullability),
 			TypeVariationRef: t.Struct.TypeVariationReference,
 			Types:            fields,
-		}
+		}, nil
 	case *proto.Type_Func_:
-		params := make([]Type, len(t.Func.ParameterTypes))
-		for i, p := range t.Func.ParameterTypes {
-			params[i] = TypeFromProto(p)
+		params, err := TypesFromProtoChecked(t.Func.ParameterTypes)
+		if err != nil {
+			return nil, err
+		}
+		ret, err := TypeFromProtoChecked(t.Func.ReturnType)
+		if err != nil {
+			return nil, err
 		}
 		return &FuncType{
 			Nullability:    Nullability(t.Func.Nullability),
 			ParameterTypes: params,
-			ReturnType:     TypeFromProto(t.Func.ReturnType),
-		}
+			ReturnType:     ret,
+		}, nil
 	case *proto.Type_List_:
+		elem, err := TypeFromProtoChecked(t.List.Type)
+		if err != nil {
+			return nil, err
+		}
 		return &ListType{
 			Nullability:      Nullability(t.List.Nullability),
 			TypeVariationRef: t.List.TypeVariationReference,
-			Type:             TypeFromProto(t.List.Type),
-		}
+			Type:             elem,
+		}, nil
 	case *proto.Type_Map_:
+		key, err := TypeFromProtoChecked(t.Map.Key)
+		if err != nil {
+			return nil, err
+		}
+		value, err := TypeFromProtoChecked(t.Map.Value)
+		if err != nil {
+			return nil, err
+		}
 		return &MapType{
 			Nullability:      Nullability(t.Map.Nullability),
 			TypeVariationRef: t.Map.TypeVariationReference,
-			Key:              TypeFromProto(t.Map.Key),
-			Value:            TypeFromProto(t.Map.Value),
-		}
+			Key:              key,
+			Value:            value,
+		}, nil
 	case *proto.Type_UserDefined_:
-		params := make([]TypeParam, len(t.UserDefined.TypeParameters))
-		for i, p := range t.UserDefined.TypeParameters {
-			params[i] = TypeParamFromProto(p)
+		params, err := TypeParamsFromProtoChecked(t.UserDefined.TypeParameters)
+		if err != nil {
+			return nil, err
 		}
 		return &UserDefinedType{
 			Nullability:      Nullability(t.UserDefined.Nullability),
 			TypeVariationRef: t.UserDefined.TypeVariationReference,
 			TypeReference:    t.UserDefined.TypeReference,
 			TypeParameters:   params,
-		}
+		}, nil
 	}
-	panic("unimplemented type from proto")
+	return nil, fmt.Errorf("%w: unknown or missing kind of type in protobuf message", substraitgo.ErrInvalidType)
 }
 
 type (
@@ -1581,23 +1621,53 @@ func (p StringParameter) Evaluate(symbolTable map[string]any) (any, error) {
 }
 
 // TypeParamFromProto converts a protobuf Type_Parameter message to
-// a TypeParam object for processing.
+// a TypeParam object for processing. It returns nil for a message without
+// a parameter.
 func TypeParamFromProto(p *proto.Type_Parameter) TypeParam {
-	switch p := p.Parameter.(type) {
+	if p.GetParameter() == nil {
+		return nil
+	}
+	param, err := typeParamFromProto(p)
+	if err != nil {
+		panic(err)
+	}
+	return param
+}
+
+// TypeParamsFromProtoChecked converts protobuf Type_Parameter messages to
+// TypeParam objects or returns an error if one of them is not a valid
+// parameter.
+func TypeParamsFromProtoChecked(ps []*proto.Type_Parameter) ([]TypeParam, error) {
+	out := make([]TypeParam, len(ps))
+	for i, p := range ps {
+		var err error
+		if out[i], err = typeParamFromProto(p); err != nil {
+			return nil, err
+		}
+	}
+	return out, nil
+}
+
+func typeParamFromProto(p *proto.Type_Parameter) (TypeParam, error) {
+	switch p := p.GetParameter().(type) {
 	case *proto.Type_Parameter_Null:
-		return NullParameter{}
+		return NullParameter{}, nil
 	case *proto.Type_Parameter_Boolean:
-		return BooleanParameter(p.Boolean)
+		return BooleanParameter(p.Boolean), nil
 	case *proto.Type_Parameter_DataType:
-		return &DataTypeParameter{TypeFromProto(p.DataType)}
+		t, err := TypeFromProtoChecked(p.DataType)
+		if err != nil {
+			return nil, err
+		}
+		return &DataTypeParameter{t}, nil
 	case *proto.Type_Parameter_Integer:
-		return IntegerParameter(p.Integer)
+		return IntegerParameter(p.Integer), nil
 	case *proto.Type_Parameter_Enum:
-		return EnumParameter(p.Enum)
+		return EnumParameter(p.Enum), nil
 	case *proto.Type_Parameter_String_:
-		return StringParameter(p.String_)
+		return StringParameter(p.String_), nil
 	}
-	return nil
+	return nil, fmt.Errorf("%w: unknown or missing type parameter in protobuf message", substraitgo.ErrInvalidType)
 }
 
 type UserDefinedType struct {
@@ -1693,24 +1763,37 @@ type NamedStruct struct {
 	Struct StructType
 }
 
+// NewNamedStructFromProto returns the NamedStruct of a protobuf message. It
+// panics if the message is not valid, use NamedStructFromProtoChecked for
+// messages that may be incomplete.
 func NewNamedStructFromProto(n *proto.NamedStruct) NamedStruct {
+	out, err := NamedStructFromProtoChecked(n)
+	if err != nil {
+		panic(err)
+	}
+	return out
+}
+
+// NamedStructFromProtoChecked returns the NamedStruct of a protobuf message or
+// an error if the message is not valid.
+func NamedStructFromProtoChecked(n *proto.NamedStruct) (NamedStruct, error) {
 	if n == nil {
-		return NamedStruct{}
+		return NamedStruct{}, nil
 	}
 
-	fields := make([]Type, len(n.Struct.Types))
-	for i, f := range n.Struct.Types {
-		fields[i] = TypeFromProto(f)
+	fields, err := TypesFromProtoChecked(n.GetStruct().GetTypes())
+	if err != nil {
+		return NamedStruct{}, err
 	}
 
 	return NamedStruct{
 		Names: n.Names,
 		Struct: StructType{
-			Nullability:      Nullability(n.Struct.Nullability),
-			TypeVariationRef: n.Struct.TypeVariationReference,
+			Nullability:      Nullability(n.GetStruct().GetNullability()),
+			TypeVariationRef: n.GetStruct().GetTypeVariationReference(),
 			Types:            fields,
 		},
-	}
+	}, nil
 }
 
 func (n NamedStruct) ToProto() *proto.NamedStruct {
@@ -1725,6 +1808,12 @@ func (n NamedStruct) String() string {
 
 	// names are in depth-first order
 	nameIdx := 0
+	writeName := func() {
+		if nameIdx < len(n.Names) {
+			b.WriteString(n.Names[nameIdx])
+		}
+		nameIdx++
+	}
 
 	var writeType func(t Type)
 
@@ -1736,8 +1825,7 @@ func (n NamedStruct) String() string {
 				if i != 0 {
 					b.WriteString(", ")
 				}
-				b.WriteString(n.Names[nameIdx])
-				nameIdx++
+				writeName()
 				b.WriteString(": ")
 				writeType(c)
 			}
@@ -1765,9 +1853,8 @@ func (n NamedStruct) String() string {
 		if i != 0 {
 			b.WriteString(", ")
 		}
-		b.WriteString(n.Names[nameIdx])
+		writeName()
 		b.WriteString(": ")
-		nameIdx++
 
 		writeType(t)
 	}
-- 
2.43.0


From de3cee0f570a7dac05db5147c673b7fb9babfedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:45 +0000
Subject: [PATCH 73/85] fix: report incomplete expressions when decoding
 instead of panicking

---
 expr/expression.go      |  59 +++++++++++++-----
 expr/field_reference.go | 131 +++++++++++++++++++++++++++++-----------
 expr/functions.go       |  12 ++--
 expr/literals.go        |  60 ++++++++++++++----
 4 files changed, 197 insertions(+), 65 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index e8a9d85..6abfaca 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -41,11 +41,11 @@ func MustExpr(e Expression, err error) Expression {
 }
 
 func FuncArgFromProto(e *proto.FunctionArgument, baseSchema *types.RecordType, reg ExtensionRegistry) (types.FuncArg, error) {
-	switch et := e.ArgType.(type) {
+	switch et := e.GetArgType().(type) {
 	case *proto.FunctionArgument_Enum:
 		return types.Enum(et.Enum), nil
 	case *proto.FunctionArgument_Type:
-		return types.TypeFromProto(et.Type), nil
+		return types.TypeFromProtoChecked(et.Type)
 	case *proto.FunctionArgument_Value:
 		return ExprFromProto(et.Value, baseSchema, reg)
 	}
@@ -59,7 +59,11 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 
 	switch et := e.RexType.(type) {
 	case *proto.Expression_Literal_:
-		return LiteralFromProto(et.Literal), nil
+		lit := LiteralFromProto(et.Literal)
+		if lit == nil {
+			return nil, fmt.Errorf("%w: invalid literal: %s", substraitgo.ErrInvalidExpr, et.Literal)
+		}
+		return lit, nil
 	case *proto.Expression_Selection:
 		return FieldReferenceFromProto(et.Selection, baseSchema, reg)
 	case *proto.Expression_ScalarFunction_:
@@ -74,6 +78,10 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		if et.ScalarFunction.OutputType == nil {
 			return nil, fmt.Errorf("%w: scalar function missing output type", substraitgo.ErrInvalidExpr)
 		}
+		outputType, err := types.TypeFromProtoChecked(et.ScalarFunction.OutputType)
+		if err != nil {
+			return nil, err
+		}
 
 		id, ok := reg.DecodeFunc(et.ScalarFunction.FunctionReference)
 		if !ok {
@@ -82,7 +90,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 
 		decl, ok := reg.LookupScalarFunction(et.ScalarFunction.FunctionReference)
 		if !ok {
-			return NewCustomScalarFunc(reg, extensions.NewScalarFuncVariant(id), types.TypeFromProto(et.ScalarFunction.OutputType), et.ScalarFunction.Options, args...)
+			return NewCustomScalarFunc(reg, extensions.NewScalarFuncVariant(id), outputType, et.ScalarFunction.Options, args...)
 		}
 
 		return &ScalarFunction{
@@ -90,7 +98,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			declaration: decl,
 			args:        args,
 			options:     et.ScalarFunction.Options,
-			outputType:  types.TypeFromProto(et.ScalarFunction.OutputType),
+			outputType:  outputType,
 		}, nil
 	case *proto.Expression_WindowFunction_:
 		var err error
@@ -118,6 +126,10 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		if et.WindowFunction.OutputType == nil {
 			return nil, fmt.Errorf("%w: window function missing output type", substraitgo.ErrInvalidExpr)
 		}
+		outputType, err := types.TypeFromProtoChecked(et.WindowFunction.OutputType)
+		if err != nil {
+			return nil, err
+		}
 
 		id, ok := reg.DecodeFunc(et.WindowFunction.FunctionReference)
 		if !ok {
@@ -125,7 +137,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		}
 		decl, ok := reg.LookupWindowFunction(et.WindowFunction.FunctionReference)
 		if !ok {
-			fn, err := NewCustomWindowFunc(reg, extensions.NewWindowFuncVariant(id), types.TypeFromProto(et.WindowFunction.OutputType),
+			fn, err := NewCustomWindowFunc(reg, extensions.NewWindowFuncVariant(id), outputType,
 				et.WindowFunction.Options, et.WindowFunction.Invocation, et.WindowFunction.Phase, args...)
 			if err != nil {
 				return nil, err
@@ -144,7 +156,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			declaration: decl,
 			args:        args,
 			options:     et.WindowFunction.Options,
-			outputType:  types.TypeFromProto(et.WindowFunction.OutputType),
+			outputType:  outputType,
 			phase:       et.WindowFunction.Phase,
 			invocation:  et.WindowFunction.Invocation,
 			Partitions:  parts,
@@ -177,6 +189,10 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			elseClause: elseExpr,
 		}, nil
 	case *proto.Expression_SwitchExpression_:
+		if len(et.SwitchExpression.Ifs) == 0 {
+			return nil, fmt.Errorf("%w: must have at least one switch case", substraitgo.ErrInvalidExpr)
+		}
+
 		matched, err := ExprFromProto(et.SwitchExpression.Match, baseSchema, reg)
 		if err != nil {
 			return nil, err
@@ -196,7 +212,9 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			Then Expression
 		}, len(et.SwitchExpression.Ifs))
 		for i, clause := range et.SwitchExpression.Ifs {
-			ifs[i].If = LiteralFromProto(clause.If)
+			if ifs[i].If = LiteralFromProto(clause.If); ifs[i].If == nil {
+				return nil, fmt.Errorf("%w: invalid literal of switch case: %s", substraitgo.ErrInvalidExpr, clause.If)
+			}
 			ifs[i].Then, err = ExprFromProto(clause.Then, baseSchema, reg)
 			if err != nil {
 				return nil, err
@@ -256,13 +274,18 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			return nil, fmt.Errorf("%w: cast expression missing type", substraitgo.ErrInvalidExpr)
 		}
 
+		castType, err := types.TypeFromProtoChecked(et.Cast.Type)
+		if err != nil {
+			return nil, err
+		}
+
 		input, err := ExprFromProto(et.Cast.Input, baseSchema, reg)
 		if err != nil {
 			return nil, err
 		}
 
 		return &Cast{
-			Type:            types.TypeFromProto(et.Cast.Type),
+			Type:            castType,
 			Input:           input,
 			FailureBehavior: et.Cast.FailureBehavior,
 		}, nil
@@ -336,8 +359,12 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		if et.DynamicParameter == nil {
 			return nil, fmt.Errorf("%w: dynamic parameter is nil", substraitgo.ErrInvalidExpr)
 		}
+		outputType, err := types.TypeFromProtoChecked(et.DynamicParameter.Type)
+		if err != nil {
+			return nil, err
+		}
 		return &DynamicParameter{
-			OutputType:         types.TypeFromProto(et.DynamicParameter.Type),
+			OutputType:         outputType,
 			ParameterReference: et.DynamicParameter.ParameterReference,
 		}, nil
 	case *proto.Expression_Enum_:
@@ -355,9 +382,9 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			return nil, fmt.Errorf("%w: lambda body cannot be nil", substraitgo.ErrInvalidExpr)
 		}
 
-		paramTypes := make([]types.Type, len(et.Lambda.Parameters.Types))
-		for i, pt := range et.Lambda.Parameters.Types {
-			paramTypes[i] = types.TypeFromProto(pt)
+		paramTypes, err := types.TypesFromProtoChecked(et.Lambda.Parameters.Types)
+		if err != nil {
+			return nil, err
 		}
 		params := &types.StructType{
 			Types:            paramTypes,
@@ -1677,11 +1704,15 @@ func ExtendedFromProto(ex *proto.ExtendedExpression, c *extensions.Collection) (
 		return nil, err
 	}
 	var (
-		base = types.NewNamedStructFromProto(ex.BaseSchema)
 		reg  = NewExtensionRegistry(extSet, c)
 		refs = make([]ExpressionReference, len(ex.ReferredExpr))
 	)
 
+	base, err := types.NamedStructFromProtoChecked(ex.BaseSchema)
+	if err != nil {
+		return nil, err
+	}
+
 	for i, r := range ex.ReferredExpr {
 		refs[i].OutputNames = r.OutputNames
 		switch et := r.ExprType.(type) {
diff --git a/expr/field_reference.go b/expr/field_reference.go
index 56523ba..67b0ec5 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -49,30 +49,47 @@ type ReferenceSegment interface {
 	Equals(ReferenceSegment) bool
 }
 
+// RefSegmentFromProto returns the reference segment of a protobuf message or
+// nil if there is none or it is not valid.
 func RefSegmentFromProto(p *proto.Expression_ReferenceSegment) ReferenceSegment {
-	if p == nil {
+	seg, err := refSegmentFromProto(p)
+	if err != nil {
 		return nil
 	}
+	return seg
+}
+
+func refSegmentFromProto(p *proto.Expression_ReferenceSegment) (ReferenceSegment, error) {
+	if p == nil {
+		return nil, nil
+	}
 
 	switch seg := p.ReferenceType.(type) {
 	case *proto.Expression_ReferenceSegment_MapKey_:
-		return &MapKeyRef{
-			MapKey: LiteralFromProto(seg.MapKey.MapKey),
-			Child:  RefSegmentFromProto(seg.MapKey.Child),
+		key := LiteralFromProto(seg.MapKey.MapKey)
+		if key == nil {
+			return nil, fmt.Errorf("%w: invalid map key of reference: %s", substraitgo.ErrInvalidExpr, seg.MapKey.MapKey)
 		}
+		child, err := refSegmentFromProto(seg.MapKey.Child)
+		if err != nil {
+			return nil, err
+		}
+		return &MapKeyRef{MapKey: key, Child: child}, nil
 	case *proto.Expression_ReferenceSegment_StructField_:
-		return &StructFieldRef{
-			Field: seg.StructField.Field,
-			Child: RefSegmentFromProto(seg.StructField.Child),
+		child, err := refSegmentFromProto(seg.StructField.Child)
+		if err != nil {
+			return nil, err
 		}
+		return &StructFieldRef{Field: seg.StructField.Field, Child: child}, nil
 	case *proto.Expression_ReferenceSegment_ListElement_:
-		return &ListElementRef{
-			Offset: seg.ListElement.Offset,
-			Child:  RefSegmentFromProto(seg.ListElement.Child),
+		child, err := refSegmentFromProto(seg.ListElement.Child)
+		if err != nil {
+			return nil, err
 		}
+		return &ListElementRef{Offset: seg.ListElement.Offset, Child: child}, nil
 	}
 
-	return nil
+	return nil, fmt.Errorf("%w: unknown or missing kind of reference segment", substraitgo.ErrInvalidExpr)
 }
 
 func FlattenRefSegments(refs ...ReferenceSegment) ReferenceSegment {
@@ -342,28 +359,49 @@ func (e *MaskExpression) Select() MaskStructSelect {
 	return slices.Clone(e.sel)
 }
 
+// MaskExpressionFromProto returns the mask of a protobuf message. It panics if
+// the message is not valid, use MaskExpressionFromProtoChecked for messages
+// that may be incomplete.
 func MaskExpressionFromProto(p *proto.Expression_MaskExpression) *MaskExpression {
-	sel := make(MaskStructSelect, len(p.Select.StructItems))
-	for i, item := range p.Select.StructItems {
-		sel[i].field = item.Field
+	mask, err := MaskExpressionFromProtoChecked(p)
+	if err != nil {
+		panic(err)
+	}
+	return mask
+}
+
+// MaskExpressionFromProtoChecked returns the mask of a protobuf message or an
+// error if the message is not valid.
+func MaskExpressionFromProtoChecked(p *proto.Expression_MaskExpression) (*MaskExpression, error) {
+	sel, err := maskStructSelectFromProto(p.GetSelect())
+	if err != nil {
+		return nil, err
+	}
+	return &MaskExpression{sel: sel, maintainSingular: p.GetMaintainSingularStruct()}, nil
+}
+
+func maskStructSelectFromProto(p *proto.Expression_MaskExpression_StructSelect) (MaskStructSelect, error) {
+	items := make(MaskStructSelect, len(p.GetStructItems()))
+	for i, item := range p.GetStructItems() {
+		items[i].field = item.Field
 		if item.Child != nil {
-			sel[i].child = maskSelectFromProto(item.Child)
+			var err error
+			if items[i].child, err = maskSelectFromProto(item.Child); err != nil {
+				return nil, err
+			}
 		}
 	}
-	return &MaskExpression{sel: sel, maintainSingular: p.MaintainSingularStruct}
+	return items, nil
 }
 
-func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) MaskSelect {
+func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) (MaskSelect, error) {
 	switch s := p.Type.(type) {
 	case *proto.Expression_MaskExpression_Select_Struct:
-		items := make(MaskStructSelect, len(s.Struct.StructItems))
-		for i, item := range s.Struct.StructItems {
-			items[i].field = item.Field
-			if item.Child != nil {
-				items[i].child = maskSelectFromProto(item.Child)
-			}
+		items, err := maskStructSelectFromProto(s.Struct)
+		if err != nil {
+			return nil, err
 		}
-		return items
+		return items, nil
 	case *proto.Expression_MaskExpression_Select_List:
 		selection := make([]MaskListSelectItem, len(s.List.Selection))
 		for i, sel := range s.List.Selection {
@@ -372,17 +410,25 @@ func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) MaskSelect {
 				selection[i] = (*MaskListElement)(s.Item)
 			case *proto.Expression_MaskExpression_ListSelect_ListSelectItem_Slice:
 				selection[i] = (*MaskListSlice)(s.Slice)
+			default:
+				return nil, fmt.Errorf("%w: unknown or missing kind of mask list item", substraitgo.ErrInvalidExpr)
 			}
 		}
 		ret := &MaskListSelect{selection: selection}
 		if s.List.Child != nil {
-			ret.child = maskSelectFromProto(s.List.Child)
+			var err error
+			if ret.child, err = maskSelectFromProto(s.List.Child); err != nil {
+				return nil, err
+			}
 		}
-		return ret
+		return ret, nil
 	case *proto.Expression_MaskExpression_Select_Map:
 		var ret MaskMapSelect
 		if s.Map.Child != nil {
-			ret.child = maskSelectFromProto(s.Map.Child)
+			var err error
+			if ret.child, err = maskSelectFromProto(s.Map.Child); err != nil {
+				return nil, err
+			}
 		}
 
 		switch sk := s.Map.Select.(type) {
@@ -392,10 +438,12 @@ func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) MaskSelect {
 		case *proto.Expression_MaskExpression_MapSelect_Key:
 			ret.key = sk.Key.MapKey
 			ret.kind = MapSelectKey
+		default:
+			return nil, fmt.Errorf("%w: unknown or missing kind of mask map selection", substraitgo.ErrInvalidExpr)
 		}
-		return &ret
+		return &ret, nil
 	}
-	panic("unimplemented mask select type")
+	return nil, fmt.Errorf("%w: unknown or missing kind of mask selection", substraitgo.ErrInvalidExpr)
 }
 
 type MaskSelect interface {
@@ -645,7 +693,13 @@ func (f *FieldReference) String() string {
 	if f.knownType != nil {
 		typ = " => " + f.knownType.String()
 	}
-	return b.String() + f.Reference.(ReferenceSegment).String() + typ
+	switch r := f.Reference.(type) {
+	case ReferenceSegment:
+		b.WriteString(r.String())
+	case *MaskExpression:
+		b.WriteString("[mask]")
+	}
+	return b.String() + typ
 }
 
 func (f *FieldReference) ToProtoFuncArg() *proto.FunctionArgument {
@@ -775,7 +829,7 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 		err       error
 	)
 
-	switch rt := p.RootType.(type) {
+	switch rt := p.GetRootType().(type) {
 	case *proto.Expression_FieldReference_Expression:
 		if root, err = ExprFromProto(rt.Expression, baseSchema, reg); err != nil {
 			return nil, err
@@ -788,9 +842,12 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 		root = LambdaParameterReference{StepsOut: rt.LambdaParameterReference.StepsOut}
 	}
 
-	switch rt := p.ReferenceType.(type) {
+	switch rt := p.GetReferenceType().(type) {
 	case *proto.Expression_FieldReference_DirectReference:
-		refseg := RefSegmentFromProto(rt.DirectReference)
+		refseg, err := refSegmentFromProto(rt.DirectReference)
+		if err != nil {
+			return nil, err
+		}
 		if root == RootReference && baseSchema != nil {
 			baseType := baseSchema.AsStructType()
 			knownType, err = refseg.GetType(baseType)
@@ -814,7 +871,13 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 		ref = refseg
 
 	case *proto.Expression_FieldReference_MaskedReference:
-		ref = MaskExpressionFromProto(rt.MaskedReference)
+		ref, err = MaskExpressionFromProtoChecked(rt.MaskedReference)
+		if err != nil {
+			return nil, err
+		}
+
+	default:
+		return nil, fmt.Errorf("%w: unknown or missing kind of field reference", substraitgo.ErrInvalidExpr)
 	}
 
 	return &FieldReference{Root: root, Reference: ref, knownType: knownType}, nil
diff --git a/expr/functions.go b/expr/functions.go
index da88e99..134088d 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -857,11 +857,15 @@ func NewCustomAggregateFunc(
 func NewAggregateFunctionFromProto(
 	agg *proto.AggregateFunction, baseSchema *types.RecordType, reg ExtensionRegistry,
 ) (*AggregateFunction, error) {
-	if agg.OutputType == nil {
+	if agg.GetOutputType() == nil {
 		return nil, fmt.Errorf("%w: missing output type", substraitgo.ErrInvalidExpr)
 	}
 
-	var err error
+	outputType, err := types.TypeFromProtoChecked(agg.OutputType)
+	if err != nil {
+		return nil, err
+	}
+
 	args := make([]types.FuncArg, len(agg.Arguments))
 	for i, a := range agg.Arguments {
 		if args[i], err = FuncArgFromProto(a, baseSchema, reg); err != nil {
@@ -882,7 +886,7 @@ func NewAggregateFunctionFromProto(
 	}
 	decl, ok := reg.LookupAggregateFunction(agg.FunctionReference)
 	if !ok {
-		return NewCustomAggregateFunc(reg, extensions.NewAggFuncVariant(id), types.TypeFromProto(agg.OutputType), agg.Options, agg.Invocation, agg.Phase, sorts, args...)
+		return NewCustomAggregateFunc(reg, extensions.NewAggFuncVariant(id), outputType, agg.Options, agg.Invocation, agg.Phase, sorts, args...)
 	}
 
 	return &AggregateFunction{
@@ -890,7 +894,7 @@ func NewAggregateFunctionFromProto(
 		declaration: decl,
 		args:        args,
 		options:     agg.Options,
-		outputType:  types.TypeFromProto(agg.OutputType),
+		outputType:  outputType,
 		phase:       agg.Phase,
 		invocation:  agg.Invocation,
 		Sorts:       sorts,
diff --git a/expr/literals.go b/expr/literals.go
index b32daa9..336a451 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1045,11 +1045,11 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 }
 
 // LiteralFromProto constructs the appropriate Literal struct from
-// a protobuf message.
+// a protobuf message. It returns nil if the message is not a valid literal.
 func LiteralFromProto(l *proto.Expression_Literal) Literal {
-	nullability := getNullability(l.Nullable)
+	nullability := getNullability(l.GetNullable())
 
-	switch lit := l.LiteralType.(type) {
+	switch lit := l.GetLiteralType().(type) {
 	case *proto.Expression_Literal_Boolean:
 		return &PrimitiveLiteral[bool]{
 			Value: lit.Boolean,
@@ -1178,6 +1178,9 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Nullability:      nullability,
 			}}
 	case *proto.Expression_Literal_Decimal_:
+		if len(lit.Decimal.Value) != 16 {
+			return nil
+		}
 		return &ProtoLiteral{
 			Value: lit.Decimal.Value,
 			Type: &types.DecimalType{
@@ -1202,12 +1205,18 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Nullability:      nullability,
 			}}
 	case *proto.Expression_Literal_Null:
-		return &NullLiteral{Type: types.TypeFromProto(lit.Null)}
+		typ, err := types.TypeFromProtoChecked(lit.Null)
+		if err != nil {
+			return nil
+		}
+		return &NullLiteral{Type: typ}
 	case *proto.Expression_Literal_Struct_:
 		typeList := make([]types.Type, len(lit.Struct.Fields))
 		fields := make([]Literal, len(lit.Struct.Fields))
 		for i, f := range lit.Struct.Fields {
-			fields[i] = LiteralFromProto(f)
+			if fields[i] = LiteralFromProto(f); fields[i] == nil {
+				return nil
+			}
 			typeList[i] = fields[i].GetType()
 		}
 
@@ -1219,10 +1228,17 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Types:            typeList,
 			}}
 	case *proto.Expression_Literal_Map_:
+		if len(lit.Map.KeyValues) == 0 {
+			// the types are unknown
+			return nil
+		}
 		ret := make(MapLiteralValue, len(lit.Map.KeyValues))
 		for i, kv := range lit.Map.KeyValues {
 			ret[i].Key = LiteralFromProto(kv.Key)
 			ret[i].Value = LiteralFromProto(kv.Value)
+			if ret[i].Key == nil || ret[i].Value == nil {
+				return nil
+			}
 		}
 		return &MapLiteral{
 			Value: ret,
@@ -1233,9 +1249,15 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Value:            ret[0].Value.GetType(),
 			}}
 	case *proto.Expression_Literal_List_:
+		if len(lit.List.Values) == 0 {
+			// the type is unknown
+			return nil
+		}
 		ret := make(ListLiteralValue, len(lit.List.Values))
 		for i, v := range lit.List.Values {
-			ret[i] = LiteralFromProto(v)
+			if ret[i] = LiteralFromProto(v); ret[i] == nil {
+				return nil
+			}
 		}
 		return &NestedLiteral[ListLiteralValue]{
 			Value: ListLiteralValue(ret),
@@ -1245,26 +1267,38 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Type:             ret[0].GetType(),
 			}}
 	case *proto.Expression_Literal_EmptyList:
+		elem, err := types.TypeFromProtoChecked(lit.EmptyList.Type)
+		if err != nil {
+			return nil
+		}
 		return &NestedLiteral[ListLiteralValue]{
 			Value: nil,
 			Type: &types.ListType{
 				Nullability:      nullability,
 				TypeVariationRef: l.TypeVariationReference,
-				Type:             types.TypeFromProto(lit.EmptyList.Type),
+				Type:             elem,
 			}}
 	case *proto.Expression_Literal_EmptyMap:
+		key, err := types.TypeFromProtoChecked(lit.EmptyMap.Key)
+		if err != nil {
+			return nil
+		}
+		value, err := types.TypeFromProtoChecked(lit.EmptyMap.Value)
+		if err != nil {
+			return nil
+		}
 		return &MapLiteral{
 			Value: nil,
 			Type: &types.MapType{
 				Nullability:      nullability,
 				TypeVariationRef: l.TypeVariationReference,
-				Key:              types.TypeFromProto(lit.EmptyMap.Key),
-				Value:            types.TypeFromProto(lit.EmptyMap.Value),
+				Key:              key,
+				Value:            value,
 			}}
 	case *proto.Expression_Literal_UserDefined_:
-		params := make([]types.TypeParam, len(lit.UserDefined.TypeParameters))
-		for i, p := range lit.UserDefined.TypeParameters {
-			params[i] = types.TypeParamFromProto(p)
+		params, err := types.TypeParamsFromProtoChecked(lit.UserDefined.TypeParameters)
+		if err != nil || lit.UserDefined.Val == nil {
+			return nil
 		}
 
 		return &ProtoLiteral{
@@ -1328,7 +1362,7 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 	case *proto.Expression_Literal_IntervalCompound_:
 		return intervalCompoundLiteralFromProto(l)
 	}
-	panic("unimplemented literal type")
+	return nil
 }
 
 // NewPrecisionTimeLiteral creates a new PrecisionTime from an integer value, representing time since
-- 
2.43.0


From f921680aa4871c2dc0140dbd47ee2c9aada33fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:49 +0000
Subject: [PATCH 74/85] fix: report incomplete relations and plans when
 decoding instead of panicking

---
 plan/common.go          |  4 ++--
 plan/internal/helper.go | 13 ++++++++++---
 plan/plan.go            | 38 ++++++++++++++++++++++++++++++++++----
 plan/relations.go       | 10 ++++++++--
 plan/subquery.go        |  6 ++++++
 5 files changed, 60 insertions(+), 11 deletions(-)

diff --git a/plan/common.go b/plan/common.go
index 5432ea2..f74a3ba 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -215,8 +215,8 @@ type RelCommon struct {
 }
 
 func (rc *RelCommon) fromProtoCommon(c *proto.RelCommon) {
-	rc.hint = c.Hint
-	rc.advExtension = c.AdvancedExtension
+	rc.hint = c.GetHint()
+	rc.advExtension = c.GetAdvancedExtension()
 
 	if emit, ok := c.GetEmitKind().(*proto.RelCommon_Emit_); ok {
 		// An emit without indices is decoded with a nil slice, but a nil mapping
diff --git a/plan/internal/helper.go b/plan/internal/helper.go
index aa0424b..7fc722d 100644
--- a/plan/internal/helper.go
+++ b/plan/internal/helper.go
@@ -1,6 +1,9 @@
 package internal
 
 import (
+	"fmt"
+
+	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/expr"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
 )
@@ -17,10 +20,14 @@ func VirtualTableExpressionFromProto(s *proto.Expression_Nested_Struct, reg expr
 	return fields, nil
 }
 
-func VirtualTableExprFromLiteralProto(s *proto.Expression_Literal_Struct) expr.VirtualTableExpressionValue {
+func VirtualTableExprFromLiteralProto(s *proto.Expression_Literal_Struct) (expr.VirtualTableExpressionValue, error) {
 	fields := make(expr.VirtualTableExpressionValue, len(s.Fields))
 	for i, f := range s.Fields {
-		fields[i] = expr.LiteralFromProto(f)
+		lit := expr.LiteralFromProto(f)
+		if lit == nil {
+			return nil, fmt.Errorf("%w: invalid literal in virtual table: %s", substraitgo.ErrInvalidExpr, f)
+		}
+		fields[i] = lit
 	}
-	return fields
+	return fields, nil
 }
diff --git a/plan/plan.go b/plan/plan.go
index ab513c6..7bd648d 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -261,9 +261,14 @@ func FromProtoWithDecoder(plan *proto.Plan, c *extensions.Collection, decoders m
 	if len(plan.ParameterBindings) > 0 {
 		ret.parameterBindings = make([]DynamicParameterBinding, len(plan.ParameterBindings))
 		for i, pb := range plan.ParameterBindings {
+			value := expr.LiteralFromProto(pb.Value)
+			if value == nil {
+				return nil, fmt.Errorf("%w: invalid value of binding for parameter anchor %d",
+					substraitgo.ErrInvalidPlan, pb.ParameterAnchor)
+			}
 			ret.parameterBindings[i] = DynamicParameterBinding{
 				ParameterAnchor: pb.ParameterAnchor,
-				Value:           expr.LiteralFromProto(pb.Value),
+				Value:           value,
 			}
 		}
 	}
@@ -447,7 +452,25 @@ func decodeExtensionDef(reg expr.ExtensionRegistry, detail *anypb.Any) (Extensio
 }
 
 func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
-	switch rel := rel.RelType.(type) {
+	out, err := relFromProto(rel, reg)
+	if err != nil {
+		return nil, err
+	}
+
+	// The columns of undecoded extensions are not known.
+	if mapping := out.OutputMapping(); len(mapping) > 0 && isRecordTypeSupported(out) {
+		direct := out.directOutputSchema()
+		for _, m := range mapping {
+			if m < 0 || m >= direct.FieldCount() {
+				return nil, fmt.Errorf("%w: %w", substraitgo.ErrInvalidRel, errOutputMappingOutOfRange)
+			}
+		}
+	}
+	return out, nil
+}
+
+func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
+	switch rel := rel.GetRelType().(type) {
 	case *proto.Rel_Read:
 		var out ReadRel
 		switch readType := rel.Read.ReadType.(type) {
@@ -473,7 +496,11 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			}
 			var values []expr.VirtualTableExpressionValue
 			for _, v := range readType.VirtualTable.Values {
-				values = append(values, internal.VirtualTableExprFromLiteralProto(v))
+				row, err := internal.VirtualTableExprFromLiteralProto(v)
+				if err != nil {
+					return nil, err
+				}
+				values = append(values, row)
 			}
 			for _, v := range readType.VirtualTable.Expressions {
 				row, err := internal.VirtualTableExpressionFromProto(v, reg)
@@ -902,7 +929,10 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to WriteRel: %w", err)
 		}
-		tableSchema := types.NewNamedStructFromProto(rel.Write.TableSchema)
+		tableSchema, err := types.NamedStructFromProtoChecked(rel.Write.TableSchema)
+		if err != nil {
+			return nil, fmt.Errorf("error getting table schema for WriteRel: %w", err)
+		}
 		out := &NamedTableWriteRel{
 			tableSchema: tableSchema,
 			op:          rel.Write.Op,
diff --git a/plan/relations.go b/plan/relations.go
index 85a079d..b512429 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -67,8 +67,11 @@ func (b *baseReadRel) fromProtoReadRel(rel *proto.ReadRel, reg expr.ExtensionReg
 		b.RelCommon.fromProtoCommon(rel.Common)
 	}
 
-	b.baseSchema = types.NewNamedStructFromProto(rel.BaseSchema)
 	var err error
+	b.baseSchema, err = types.NamedStructFromProtoChecked(rel.BaseSchema)
+	if err != nil {
+		return err
+	}
 	if rel.Filter != nil {
 		b.filter, err = expr.ExprFromProto(rel.Filter, types.NewRecordTypeFromStruct(b.baseSchema.Struct), reg)
 		if err != nil {
@@ -84,7 +87,10 @@ func (b *baseReadRel) fromProtoReadRel(rel *proto.ReadRel, reg expr.ExtensionReg
 	}
 
 	if rel.Projection != nil {
-		b.projection = expr.MaskExpressionFromProto(rel.Projection)
+		b.projection, err = expr.MaskExpressionFromProtoChecked(rel.Projection)
+		if err != nil {
+			return err
+		}
 	}
 
 	b.advExtension = rel.AdvancedExtension
diff --git a/plan/subquery.go b/plan/subquery.go
index 02516ec..c9aa6eb 100644
--- a/plan/subquery.go
+++ b/plan/subquery.go
@@ -27,6 +27,12 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 		if err != nil {
 			return nil, err
 		}
+		if isRecordTypeSupported(rel) {
+			if schema := rel.RecordType(); schema.FieldCount() != 1 {
+				return nil, fmt.Errorf("%w: scalar subquery must have exactly one column, got %d",
+					substraitgo.ErrInvalidExpr, schema.FieldCount())
+			}
+		}
 		return NewScalarSubquery(rel), nil
 
 	case *proto.Expression_Subquery_InPredicate_:
-- 
2.43.0


From 025d48aaa463adaf6ec867736e7d91d4962316b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:30 +0000
Subject: [PATCH 75/85] fix: parse interval strings exactly and reject
 malformed ones

---
 literal/utils.go | 128 ++++++++++++++++++++---------------------------
 1 file changed, 55 insertions(+), 73 deletions(-)

diff --git a/literal/utils.go b/literal/utils.go
index 4d8673f..5190256 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -2,10 +2,12 @@ package literal
 
 import (
 	"fmt"
+	"math"
 	"math/big"
 	"regexp"
 	"slices"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/cockroachdb/apd/v3"
@@ -151,40 +153,32 @@ func NewIntervalYearsToMonthFromString(yearsToMonth string, nullable bool) (expr
 	return NewIntervalYearsToMonth(years, months, nullable)
 }
 
+var intervalYearsToMonthPattern = regexp.MustCompile(`^P(?:([+-]?\d+)Y)?(?:([+-]?\d+)M)?$`)
+
 func parseIntervalYearsToMonth(interval string) (int32, int32, error) {
-	if len(interval) < 3 || interval[0] != 'P' {
+	// Parse interval of format P[n]Y[n]M
+	matches := intervalYearsToMonthPattern.FindStringSubmatch(interval)
+	if len(interval) < 3 || matches == nil {
 		return 0, 0, fmt.Errorf("invalid interval format: %s", interval)
 	}
-	interval = interval[1:]
-	yIndex := -1
-	mIndex := -1
-	for i, c := range interval {
-		if c == 'Y' {
-			yIndex = i
-		} else if c == 'M' {
-			mIndex = i
-		}
-	}
-	if yIndex == -1 && mIndex == -1 {
-		return 0, 0, fmt.Errorf("invalid interval format: %s", interval)
+	years, err := parseIntervalComponent(matches[1])
+	if err != nil {
+		return 0, 0, fmt.Errorf("invalid year value: %v", err)
 	}
-	var months, years int
-	var err error
-	if yIndex != -1 {
-		years, err = strconv.Atoi(interval[:yIndex])
-		if err != nil {
-			return 0, 0, err
-		}
-		interval = interval[yIndex+1:]
-		mIndex -= yIndex + 1
+	months, err := parseIntervalComponent(matches[2])
+	if err != nil {
+		return 0, 0, fmt.Errorf("invalid month value: %v", err)
 	}
-	if mIndex > 0 {
-		months, err = strconv.Atoi(interval[:mIndex])
-		if err != nil {
-			return 0, 0, err
-		}
+	return years, months, nil
+}
+
+// parseIntervalComponent parses one number of an interval, a missing one is 0.
+func parseIntervalComponent(value string) (int32, error) {
+	if value == "" {
+		return 0, nil
 	}
-	return int32(years), int32(months), nil
+	v, err := strconv.ParseInt(value, 10, 32)
+	return int32(v), err
 }
 
 func NewIntervalYearsToMonth(years, months int32, nullable bool) (expr.Literal, error) {
@@ -206,63 +200,51 @@ func NewIntervalDaysToSecondFromString(daysToSecond string, nullable bool) (expr
 	}, nullable)
 }
 
-func parseIntervalDaysToSecond(interval string) (int32, int32, int64, int32, error) {
-	if len(interval) < 3 || interval[0] != 'P' {
-		return 0, 0, 0, 0, fmt.Errorf("invalid interval format: %s", interval)
-	}
+var intervalDaysToSecondPattern = regexp.MustCompile(`^P(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d+)?|\.\d+)S)?)?$`)
 
+func parseIntervalDaysToSecond(interval string) (int32, int32, int64, int32, error) {
 	// Parse interval of format P[n]DT[n]H[n]M[n]S
-	// Ex: 3DT4H5M6.789S
-	regex := `^P(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d*(\.\d+)?)S)?)?$`
-	r := regexp.MustCompile(regex)
-
-	// Find matches
-	matches := r.FindStringSubmatch(interval)
-	if matches == nil {
+	// Ex: P3DT4H5M6.789S
+	matches := intervalDaysToSecondPattern.FindStringSubmatch(interval)
+	if len(interval) < 3 || matches == nil || strings.HasSuffix(interval, "T") {
 		return 0, 0, 0, 0, fmt.Errorf("invalid interval format: %s", interval)
 	}
 
 	// Parse each component
-	var err error
-	var days, hours, minutes, seconds int
-	var secFloat float64
-	var subSeconds int64
-	if matches[1] != "" {
-		days, err = strconv.Atoi(matches[1])
-		if err != nil {
-			return 0, 0, 0, 0, fmt.Errorf("invalid day value: %v", err)
-		}
+	days, err := parseIntervalComponent(matches[1])
+	if err != nil {
+		return 0, 0, 0, 0, fmt.Errorf("invalid day value: %v", err)
 	}
-	if matches[2] != "" {
-		hours, err = strconv.Atoi(matches[2])
-		if err != nil {
-			return 0, 0, 0, 0, fmt.Errorf("invalid hour value: %v", err)
-		}
+	hours, err := parseIntervalComponent(matches[2])
+	if err != nil {
+		return 0, 0, 0, 0, fmt.Errorf("invalid hour value: %v", err)
 	}
-	if matches[3] != "" {
-		minutes, err = strconv.Atoi(matches[3])
-		if err != nil {
-			return 0, 0, 0, 0, fmt.Errorf("invalid minute value: %v", err)
-		}
+	minutes, err := parseIntervalComponent(matches[3])
+	if err != nil {
+		return 0, 0, 0, 0, fmt.Errorf("invalid minute value: %v", err)
 	}
-	if matches[4] != "" {
-		secFloat, err = strconv.ParseFloat(matches[4], 64)
-		if err != nil {
-			return 0, 0, 0, 0, fmt.Errorf("invalid fractional second value: %v", err)
-		}
+	whole, fraction, _ := strings.Cut(matches[4], ".")
+	seconds, err := parseIntervalComponent(whole)
+	if err != nil {
+		return 0, 0, 0, 0, fmt.Errorf("invalid second value: %v", err)
+	}
+	total := int64(hours)*3600 + int64(minutes)*60 + int64(seconds)
+	if total > math.MaxInt32 {
+		return 0, 0, 0, 0, fmt.Errorf("interval out of range: %s", interval)
 	}
 
-	seconds = int(secFloat)
-	secFloat -= float64(seconds)
-	seconds += hours*3600 + minutes*60
-	nanoSeconds := int64(secFloat * 1e9)
-	subSeconds = int64(secFloat * 1e6)
-	precision := int32(types.PrecisionMicroSeconds)
-	if nanoSeconds > subSeconds*1e3 {
-		subSeconds = nanoSeconds
-		precision = int32(types.PrecisionNanoSeconds)
+	fraction = strings.TrimRight(fraction, "0")
+	if len(fraction) > 9 {
+		return 0, 0, 0, 0, fmt.Errorf("fractional seconds exceed nanosecond precision: %s", interval)
+	}
+	nanoSeconds, err := parseIntervalComponent(fraction + strings.Repeat("0", 9-len(fraction)))
+	if err != nil {
+		return 0, 0, 0, 0, fmt.Errorf("invalid fractional second value: %v", err)
+	}
+	if nanoSeconds%1e3 != 0 {
+		return days, int32(total), int64(nanoSeconds), int32(types.PrecisionNanoSeconds), nil
 	}
-	return int32(days), int32(seconds), subSeconds, precision, nil
+	return days, int32(total), int64(nanoSeconds / 1e3), int32(types.PrecisionMicroSeconds), nil
 }
 
 func NewIntervalDaysToSecond(days, seconds int32, micros int64, nullable bool) (expr.Literal, error) {
-- 
2.43.0


From 8d4eff74a860254e23defcd27b22558e307d69eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:24 +0000
Subject: [PATCH 76/85] fix: reject Go values that a literal's type cannot hold

---
 expr/literals.go | 20 +++++++++++++++++---
 literal/utils.go | 45 +++++++++++++++++++++++++++++++++++++--------
 types/types.go   | 23 +++++++++++++++++++++++
 3 files changed, 77 insertions(+), 11 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 336a451..2efa3dd 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -748,7 +748,10 @@ func newVarCharWithType(literal *ProtoLiteral, vcharType *types.VarCharType) (Li
 
 func newPrecisionTimeWithType(literal *ProtoLiteral, ptType *types.PrecisionTimeType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimeType); ok {
-		value := types.GetTimeValueByPrecision(types.Time(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptType.Precision)
+		value, err := types.GetTimeValueByPrecisionChecked(types.Time(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptType.Precision)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{Value: value, Type: ptType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision time")
@@ -756,7 +759,10 @@ func newPrecisionTimeWithType(literal *ProtoLiteral, ptType *types.PrecisionTime
 
 func newPrecisionTimestampWithType(literal *ProtoLiteral, ptsType *types.PrecisionTimestampType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimestampType); ok {
-		value := types.GetTimeValueByPrecision(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptsType.Precision)
+		value, err := types.GetTimeValueByPrecisionChecked(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptsType.Precision)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{Value: value, Type: ptsType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision timestamp")
@@ -764,7 +770,10 @@ func newPrecisionTimestampWithType(literal *ProtoLiteral, ptsType *types.Precisi
 
 func newPrecisionTimestampTzWithType(literal *ProtoLiteral, ptstzType *types.PrecisionTimestampTzType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimestampTzType); ok {
-		value := types.GetTimeValueByPrecision(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptstzType.Precision)
+		value, err := types.GetTimeValueByPrecisionChecked(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptstzType.Precision)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{Value: value, Type: ptstzType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision timestamp tz")
@@ -779,6 +788,8 @@ func newIntervalDayWithType(literal *ProtoLiteral, intervalDayType *types.Interv
 			factor := int64(math.Pow10(int(math.Abs(float64(precisionDiff)))))
 			if precisionDiff > 0 {
 				ss /= factor
+			} else if ss > math.MaxInt64/factor || ss < math.MinInt64/factor {
+				return nil, fmt.Errorf("interval is out of range at precision %d", intervalDayType.Precision)
 			} else {
 				ss *= factor
 			}
@@ -952,6 +963,9 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 	case types.FixedChar:
 		return NewFixedCharLiteral(v, nullable), nil
 	case types.UUID:
+		if len(v) != 16 {
+			return nil, fmt.Errorf("uuid value must be 16 bytes")
+		}
 		return NewByteSliceLiteral(v, nullable), nil
 	case []byte:
 		return NewByteSliceLiteral(v, nullable), nil
diff --git a/literal/utils.go b/literal/utils.go
index 5190256..b9e4700 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -52,6 +52,9 @@ func NewString(value string, nullable bool) expr.Literal {
 }
 
 func NewDate(days int, nullable bool) (expr.Literal, error) {
+	if int(types.Date(days)) != days {
+		return nil, fmt.Errorf("date value %d is out of range", days)
+	}
 	return expr.NewLiteral(types.Date(days), nullable)
 }
 
@@ -66,12 +69,11 @@ func NewDateFromString(value string, nullable bool) (expr.Literal, error) {
 // NewTime creates a new Time literal from the given hours, minutes, seconds and microseconds.
 // The total microseconds should be in the range [0, 86400_000_000) to represent a valid time within a day.
 func NewTime(hours, minutes, seconds, microseconds int32, nullable bool) (expr.Literal, error) {
-	duration := time.Duration(hours)*time.Hour + time.Duration(minutes)*time.Minute + time.Duration(seconds)*time.Second + time.Duration(microseconds)*time.Microsecond
-	micros := duration.Microseconds()
+	micros := int64(hours)*time.Hour.Microseconds() + int64(minutes)*time.Minute.Microseconds() + int64(seconds)*time.Second.Microseconds() + int64(microseconds)
 	if micros < 0 || micros >= (24*time.Hour).Microseconds() {
 		return nil, fmt.Errorf("invalid time value %d:%d:%d.%d", hours, minutes, seconds, microseconds)
 	}
-	return expr.NewLiteral(types.Time(duration.Microseconds()), nullable)
+	return expr.NewLiteral(types.Time(micros), nullable)
 }
 
 // NewTimeFromMicros creates a new Time literal from the given microseconds.
@@ -112,7 +114,11 @@ func parseTimeFromString(value string) (time.Time, error) {
 // NewTimestamp creates a new Timestamp literal from a time.Time timestamp value.
 // This uses the number of microseconds elapsed since January 1, 1970 00:00:00 UTC
 func NewTimestamp(timestamp time.Time, nullable bool) (expr.Literal, error) {
-	return expr.NewLiteral(types.Timestamp(timestamp.UnixMicro()), nullable)
+	micros, err := types.GetTimeValueByPrecisionChecked(timestamp, types.PrecisionMicroSeconds)
+	if err != nil {
+		return nil, err
+	}
+	return expr.NewLiteral(types.Timestamp(micros), nullable)
 }
 
 func NewTimestampFromString(value string, nullable bool) (expr.Literal, error) {
@@ -130,7 +136,11 @@ func NewTimestampFromMicros(micros int64, nullable bool) (expr.Literal, error) {
 // NewTimestampTZ creates a new TimestampTz literal from a time.Time timestamp value.
 // This uses the number of microseconds elapsed since January 1, 1970 00:00:00 UTC
 func NewTimestampTZ(timestamp time.Time, nullable bool) (expr.Literal, error) {
-	return expr.NewLiteral(types.TimestampTz(timestamp.UnixMicro()), nullable)
+	micros, err := types.GetTimeValueByPrecisionChecked(timestamp, types.PrecisionMicroSeconds)
+	if err != nil {
+		return nil, err
+	}
+	return expr.NewLiteral(types.TimestampTz(micros), nullable)
 }
 
 func NewTimestampTZFromString(value string, nullable bool) (expr.Literal, error) {
@@ -324,7 +334,14 @@ func NewDecimalFromApdDecimal(value *apd.Decimal, nullable bool) (expr.Literal,
 	return expr.NewLiteral(&types.Decimal{Value: v[:16], Precision: precision, Scale: scale}, nullable)
 }
 
+// The value should be in the range [0, 24 hours) to represent a valid time within a day.
 func NewPrecisionTime(precision types.TimePrecision, value int64, nullable bool) (expr.Literal, error) {
+	if _, err := types.ProtoToTimePrecision(precision.ToProtoVal()); err != nil {
+		return nil, err
+	}
+	if value < 0 || value >= int64(24*time.Hour/types.SubSecondsToDuration(1, precision)) {
+		return nil, fmt.Errorf("invalid time value %d at precision %d", value, precision)
+	}
 	return expr.NewLiteral(&types.PrecisionTime{
 		Precision: int32(precision),
 		Value:     value,
@@ -336,7 +353,11 @@ var epochTM = time.Unix(0, 0).UTC()
 func NewPrecisionTimeFromTime(precision types.TimePrecision, tm time.Time, nullable bool) (expr.Literal, error) {
 	// truncate the date so that we only keep the duration since midnight
 	tm = epochTM.Add(tm.Sub(tm.Truncate(24 * time.Hour)))
-	return NewPrecisionTime(precision, types.GetTimeValueByPrecision(tm, precision), nullable)
+	value, err := types.GetTimeValueByPrecisionChecked(tm, precision)
+	if err != nil {
+		return nil, err
+	}
+	return NewPrecisionTime(precision, value, nullable)
 }
 
 func NewPrecisionTimeFromString(precision types.TimePrecision, value string, nullable bool) (expr.Literal, error) {
@@ -349,7 +370,11 @@ func NewPrecisionTimeFromString(precision types.TimePrecision, value string, nul
 
 // NewPrecisionTimestampFromTime creates a new PrecisionTimestamp literal from a time.Time timestamp value with given precision.
 func NewPrecisionTimestampFromTime(precision types.TimePrecision, tm time.Time, nullable bool) (expr.Literal, error) {
-	return NewPrecisionTimestamp(precision, types.GetTimeValueByPrecision(tm, precision), nullable)
+	value, err := types.GetTimeValueByPrecisionChecked(tm, precision)
+	if err != nil {
+		return nil, err
+	}
+	return NewPrecisionTimestamp(precision, value, nullable)
 }
 
 // NewPrecisionTimestamp creates a new PrecisionTimestamp literal with given precision and value.
@@ -372,7 +397,11 @@ func NewPrecisionTimestampFromString(precision types.TimePrecision, value string
 
 // NewPrecisionTimestampTzFromTime creates a new PrecisionTimestampTz literal from a time.Time timestamp value with given precision.
 func NewPrecisionTimestampTzFromTime(precision types.TimePrecision, tm time.Time, nullable bool) (expr.Literal, error) {
-	return NewPrecisionTimestampTz(precision, types.GetTimeValueByPrecision(tm, precision), nullable)
+	value, err := types.GetTimeValueByPrecisionChecked(tm, precision)
+	if err != nil {
+		return nil, err
+	}
+	return NewPrecisionTimestampTz(precision, value, nullable)
 }
 
 // NewPrecisionTimestampTz creates a new PrecisionTimestampTz literal with given precision and value.
diff --git a/types/types.go b/types/types.go
index 6a9a125..484b17e 100644
--- a/types/types.go
+++ b/types/types.go
@@ -6,6 +6,7 @@ package types
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"slices"
 	"strconv"
@@ -2015,3 +2016,25 @@ func GetTimeValueByPrecision(tm time.Time, precision TimePrecision) int64 {
 		panic(fmt.Sprintf("unknown TimePrecision %v", precision))
 	}
 }
+
+// GetTimeValueByPrecisionChecked is GetTimeValueByPrecision, with an error for an
+// unknown precision and for an instant whose value exceeds 64 bits.
+func GetTimeValueByPrecisionChecked(tm time.Time, precision TimePrecision) (int64, error) {
+	if _, err := ProtoToTimePrecision(precision.ToProtoVal()); err != nil {
+		return 0, err
+	}
+	unit := SubSecondsToDuration(1, precision)
+	seconds, units, perSecond := tm.Unix(), int64(tm.Nanosecond())/int64(unit), int64(time.Second/unit)
+	if seconds < 0 {
+		// count back from the next second, the start of this one may not fit
+		seconds, units = seconds+1, units-perSecond
+	}
+	if seconds > math.MaxInt64/perSecond || seconds < math.MinInt64/perSecond {
+		return 0, fmt.Errorf("time is out of range at precision %d", precision)
+	}
+	value := seconds * perSecond
+	if (units > 0 && value > math.MaxInt64-units) || (units < 0 && value < math.MinInt64-units) {
+		return 0, fmt.Errorf("time is out of range at precision %d", precision)
+	}
+	return value + units, nil
+}
-- 
2.43.0


From ba35e0b44b13f4f611a8719ef4e3507dc0f24136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:37 +0000
Subject: [PATCH 77/85] fix: reject call arguments that are not expressions or
 enums

---
 expr/functions.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/expr/functions.go b/expr/functions.go
index 134088d..e1a752c 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -214,12 +214,21 @@ func resolveVariant[T variant](
 	args []types.FuncArg,
 ) (T, types.Type, error) {
 	argTypes := make([]types.Type, 0, len(args))
-	for _, arg := range args {
+	for i, arg := range args {
 		switch a := arg.(type) {
 		case types.Enum:
 			argTypes = append(argTypes, types.CommonEnumType)
 		case Expression:
-			argTypes = append(argTypes, a.GetType())
+			typ := a.GetType()
+			if typ == nil {
+				return nil, nil, fmt.Errorf("%w: argument #%d has no known type",
+					substraitgo.ErrInvalidExpr, i)
+			}
+			argTypes = append(argTypes, typ)
+		default:
+			// functions with type parameters can't be resolved yet
+			return nil, nil, fmt.Errorf("%w: argument #%d must be an expression or an enum, got %T",
+				substraitgo.ErrInvalidExpr, i, arg)
 		}
 	}
 
-- 
2.43.0


From 5a03313e83e61908c938e037b114e90e225567ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:44 +0000
Subject: [PATCH 78/85] fix: an enum argument does not match a value parameter

---
 extensions/variants.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extensions/variants.go b/extensions/variants.go
index 6396aba..4398d9b 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -231,6 +231,12 @@ func matchArgumentAtCommon(actualType types.Type, argPos int, nullability Nullab
 	} else {
 		funcDefArg = funcDefArgList[len(funcDefArgList)-1]
 	}
+	if _, isEnum := actualType.(*types.EnumType); isEnum {
+		// an enum is no value, not even one of any type
+		if _, ok := funcDefArg.(*types.EnumType); !ok {
+			return false, nil
+		}
+	}
 	switch nullability {
 	case DiscreteNullability:
 		return funcDefArg.MatchWithNullability(actualType), nil
-- 
2.43.0


From b9dec8814d4a3c00835abe05a6ca3a221400a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:53 +0000
Subject: [PATCH 79/85] fix: reject type texts with unreadable characters,
 numbers beyond 32 bits or function parameters that are not types

---
 types/parser/parse.go   | 5 +++--
 types/parser/visitor.go | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/types/parser/parse.go b/types/parser/parse.go
index a6418af..d96e9c4 100644
--- a/types/parser/parse.go
+++ b/types/parser/parse.go
@@ -41,13 +41,14 @@ func (t *TypeExpression) UnmarshalYAML(fn func(interface{}) error) error {
 func ParseType(input string) (types.FuncDefArgType, error) {
 	is := antlr.NewInputStream(input)
 	lexer := baseparser2.NewSubstraitTypeLexer(is)
+	errorListener := util.NewSimpleErrorListener()
+	lexer.AddErrorListener(errorListener)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := baseparser2.NewSubstraitTypeParser(stream)
-	errorListener := util.NewSimpleErrorListener()
 	p.AddErrorListener(errorListener)
 	p.GetInterpreter().SetPredictionMode(antlr.PredictionModeSLL)
 
-	visitor := &TypeVisitor{}
+	visitor := &TypeVisitor{ErrorListener: errorListener}
 	ret, err := parseType(input, p, errorListener, visitor)
 	if err != nil {
 		return nil, err
diff --git a/types/parser/visitor.go b/types/parser/visitor.go
index 13c66ae..01a36c4 100644
--- a/types/parser/visitor.go
+++ b/types/parser/visitor.go
@@ -197,6 +197,9 @@ func (v *TypeVisitor) VisitUserDefined(ctx *baseparser2.UserDefinedContext) inte
 		case types.FuncDefArgType:
 			params = append(params, &types.DataTypeUDTParam{Type: param})
 		case *types.LiteralNumber:
+			if int64(int32(param.Value)) != param.Value {
+				v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("type parameter %d does not fit in 32 bits", param.Value))
+			}
 			params = append(params, &types.IntegerUDTParam{Integer: int32(param.Value)})
 		case types.StringParameter:
 			params = append(params, &types.StringUDTParam{StringVal: string(param)})
@@ -345,6 +348,8 @@ func (v *TypeVisitor) VisitFunc(ctx *baseparser2.FuncContext) interface{} {
 			paramTypes = p
 		case types.FuncDefArgType:
 			paramTypes = []types.FuncDefArgType{p}
+		default:
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("func parameter is not a FuncDefArgType, type %T", p))
 		}
 	}
 
@@ -375,7 +380,7 @@ func (v *TypeVisitor) VisitParameterName(ctx *baseparser2.ParameterNameContext)
 }
 
 func (v *TypeVisitor) VisitNumericLiteral(ctx *baseparser2.NumericLiteralContext) interface{} {
-	num, err := strconv.ParseInt(ctx.Number().GetText(), 10, 0)
+	num, err := strconv.ParseInt(ctx.Number().GetText(), 10, 32)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("error parsing type parameter as number: %s", err))
 		return integer_parameters.NewConcreteIntParam(0)
-- 
2.43.0


From 4ae04c2d6331d38cd539cd797f846f5d37683428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:03 +0000
Subject: [PATCH 80/85] fix: print function types and nested conditions so that
 they parse to the same again

---
 types/parameterized_func_type.go |  8 +++++++-
 types/type_derivation.go         | 19 +++++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/types/parameterized_func_type.go b/types/parameterized_func_type.go
index b646473..057b418 100644
--- a/types/parameterized_func_type.go
+++ b/types/parameterized_func_type.go
@@ -8,7 +8,7 @@ import (
 )
 
 // ParameterizedFuncType is a parameterized function type
-// example: func<any1 -> any2> or func<i32, i32 -> i64> or func<T -> R>
+// example: func<any1 -> any2> or func<(i32, i32) -> i64> or func<T -> R>
 type ParameterizedFuncType struct {
 	Nullability Nullability
 	Parameters  []FuncDefArgType
@@ -27,12 +27,18 @@ func (f *ParameterizedFuncType) String() string {
 	b.WriteString("func")
 	b.WriteString(strFromNullability(f.Nullability))
 	b.WriteByte('<')
+	if len(f.Parameters) > 1 {
+		b.WriteByte('(')
+	}
 	for i, p := range f.Parameters {
 		if i != 0 {
 			b.WriteString(", ")
 		}
 		b.WriteString(p.String())
 	}
+	if len(f.Parameters) > 1 {
+		b.WriteByte(')')
+	}
 	b.WriteString(" -> ")
 	b.WriteString(f.Return.String())
 	b.WriteByte('>')
diff --git a/types/type_derivation.go b/types/type_derivation.go
index 72379e7..29ca7ca 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -188,7 +188,18 @@ func boolOperand(v any) (bool, error) {
 }
 
 func (b BinaryExpr) String() string {
-	return fmt.Sprintf("(%s %s %s)", b.Left, b.Op, b.Right)
+	return fmt.Sprintf("(%s %s %s)", operandString(b.Left), b.Op, operandString(b.Right))
+}
+
+// operandString is the text of an operand, in parentheses where it would
+// otherwise bind the expression around it.
+func operandString(e Expr) string {
+	switch e.(type) {
+	case *IfExpr, *NotExpr:
+		return fmt.Sprintf("(%s)", e)
+	default:
+		return e.String()
+	}
 }
 
 type IfExpr struct {
@@ -200,9 +211,9 @@ type IfExpr struct {
 
 func (i IfExpr) String() string {
 	if i.IsTernary {
-		return fmt.Sprintf("%s ? %s : %s", i.Condition, i.Then, i.Else)
+		return fmt.Sprintf("%s ? %s : %s", operandString(i.Condition), operandString(i.Then), operandString(i.Else))
 	}
-	return fmt.Sprintf("if %s then %s else %s", i.Condition, i.Then, i.Else)
+	return fmt.Sprintf("if %s then %s else %s", i.Condition, i.Then, operandString(i.Else))
 }
 
 func (i IfExpr) Evaluate(symbolTable map[string]any) (any, error) {
@@ -225,7 +236,7 @@ type NotExpr struct {
 }
 
 func (n NotExpr) String() string {
-	return fmt.Sprintf("!%s", n.Expr)
+	return fmt.Sprintf("!%s", operandString(n.Expr))
 }
 
 func (n NotExpr) Evaluate(symbolTable map[string]any) (any, error) {
-- 
2.43.0


From 307bd4b7699282b2f2cc2e3fba2378e2051da913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:11 +0000
Subject: [PATCH 81/85] fix: fixed binary literals have the length of their
 type, varchar lengths count characters

---
 expr/literals.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 2efa3dd..44780d6 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -13,6 +13,7 @@ import (
 	"slices"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	"github.com/google/uuid"
 	substraitgo "github.com/substrait-io/substrait-go/v8"
@@ -485,8 +486,11 @@ func (t *ByteSliceLiteral[T]) Visit(VisitFunc) Expression { return t }
 func (*ByteSliceLiteral[T]) IsScalar() bool               { return true }
 
 func (t *ByteSliceLiteral[T]) WithType(newType types.Type) (Literal, error) {
-	switch newType.(type) {
+	switch newType := newType.(type) {
 	case *types.FixedBinaryType:
+		if len(t.Value) > int(newType.Length) {
+			return nil, fmt.Errorf("fixedbinary literal value length is greater than type length")
+		}
 		return &ByteSliceLiteral[types.FixedBinary]{
 			Value: types.FixedBinary(t.Value),
 			Type:  newType,
@@ -740,7 +744,7 @@ func newVarCharWithType(literal *ProtoLiteral, vcharType *types.VarCharType) (Li
 	if _, ok := literal.GetType().(*types.VarCharType); !ok {
 		return nil, fmt.Errorf("literal type is not varchar")
 	}
-	if len(literal.Value.(string)) > int(vcharType.GetLength()) {
+	if utf8.RuneCountInString(literal.Value.(string)) > int(vcharType.GetLength()) {
 		return nil, fmt.Errorf("varchar literal value length is greater than type length")
 	}
 	return &ProtoLiteral{Value: literal.Value, Type: vcharType}, nil
-- 
2.43.0


From fc6256a88634fe4003809119ce798b1e1bd35bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:14 +0000
Subject: [PATCH 82/85] fix: test case options in a fixed order, columns by the
 index they name, quotes escaped when printed

---
 testcases/parser/nodes.go | 45 ++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 6dfaae9..9752b2a 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -2,8 +2,11 @@ package parser
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/expr"
@@ -74,12 +77,16 @@ func literalToString(literal expr.Literal) string {
 	// for these types enclose in single quotes
 	case *types.StringType, *types.FixedCharType, *types.VarCharType,
 		*types.FixedBinaryType, *types.BinaryType, *types.DateType:
-		return fmt.Sprintf("'%s'", literal.ValueString())
+		return fmt.Sprintf("'%s'", escapeString(literal.ValueString()))
 	default:
 		return literal.ValueString()
 	}
 }
 
+func escapeString(s string) string {
+	return strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), `'`, `\'`)
+}
+
 func (c *CaseLiteral) AsAggregateArgumentString() string {
 	if list, ok := c.Value.(*expr.ListLiteral); ok {
 		var elements []string
@@ -104,6 +111,9 @@ func (c *CaseLiteral) updateLiteralType() error {
 	case *expr.NullLiteral:
 		return nil
 	case expr.WithTypeLiteral:
+		if err := checkFixedCharLength(c.Value, c.Type); err != nil {
+			return err
+		}
 		lit, err := proLit.WithType(c.Type)
 		if err != nil {
 			return err
@@ -114,6 +124,17 @@ func (c *CaseLiteral) updateLiteralType() error {
 	return fmt.Errorf("literal type %T is not handled to update the type", c.Value)
 }
 
+func checkFixedCharLength(lit types.FuncArg, typ types.Type) error {
+	fixedChar, ok := lit.(*expr.PrimitiveLiteral[types.FixedChar])
+	if !ok {
+		return nil
+	}
+	if fixedType, ok := typ.(*types.FixedCharType); ok && utf8.RuneCountInString(string(fixedChar.Value)) > int(fixedType.Length) {
+		return fmt.Errorf("value %s is longer than its type %s", fixedChar.Value, typ)
+	}
+	return nil
+}
+
 type TestFileHeader struct {
 	Version     string
 	FuncType    TestFuncType
@@ -231,8 +252,8 @@ func (tc *TestCase) getOptionString() string {
 	var b strings.Builder
 	b.WriteString(" [")
 	var options []string
-	for k, v := range tc.Options {
-		options = append(options, fmt.Sprintf("%s:%s", k, v))
+	for _, k := range slices.Sorted(maps.Keys(tc.Options)) {
+		options = append(options, fmt.Sprintf("%s:%s", k, tc.Options[k]))
 	}
 	b.WriteString(strings.Join(options, ","))
 	b.WriteByte(']')
@@ -244,10 +265,10 @@ func (tc *TestCase) GetFunctionOptions() []*types.FunctionOption {
 		return nil
 	}
 	funcOptions := make([]*types.FunctionOption, 0)
-	for key, value := range tc.Options {
+	for _, key := range slices.Sorted(maps.Keys(tc.Options)) {
 		funcOptions = append(funcOptions, &types.FunctionOption{
 			Name:       key,
-			Preference: []string{value},
+			Preference: []string{tc.Options[key]},
 		})
 	}
 	return funcOptions
@@ -274,11 +295,15 @@ func (tc *TestCase) getAggregateFuncArgTypes() []types.Type {
 }
 
 func (tc *TestCase) getAggregateFuncTableSchema() []types.Type {
-	schemaTypes := make([]types.Type, len(tc.AggregateArgs))
-	for i, arg := range tc.AggregateArgs {
-		if !arg.IsScalar {
-			schemaTypes[i] = arg.ColumnType
+	var schemaTypes []types.Type
+	for _, arg := range tc.AggregateArgs {
+		if arg.IsScalar {
+			continue
+		}
+		for len(schemaTypes) <= int(arg.ColumnIndex) {
+			schemaTypes = append(schemaTypes, nil)
 		}
+		schemaTypes[arg.ColumnIndex] = arg.ColumnType
 	}
 	return schemaTypes
 }
@@ -473,7 +498,7 @@ func (a *AggregateArgument) GetType() types.Type {
 }
 
 func newAggregateArgument(tableName string, columnName string, columnType types.Type) (*AggregateArgument, error) {
-	index, err := strconv.ParseInt(columnName[3:], 10, 64)
+	index, err := strconv.ParseInt(columnName[3:], 10, 32)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b23f97f4e49e81ac6581d28bd27d093a8c7dd8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:18 +0000
Subject: [PATCH 83/85] fix: test files with values out of range, ragged rows,
 other kinds of literals or unreadable characters are errors

---
 testcases/parser/parse.go   |  3 +-
 testcases/parser/visitor.go | 74 ++++++++++++++++++++++++++++++++-----
 2 files changed, 67 insertions(+), 10 deletions(-)

diff --git a/testcases/parser/parse.go b/testcases/parser/parse.go
index 42e0e2b..14544cf 100644
--- a/testcases/parser/parse.go
+++ b/testcases/parser/parse.go
@@ -35,9 +35,10 @@ func ParseTestCasesFromString(input string) (*TestFile, error) {
 
 func parseTestCasesFromStream(is *antlr.InputStream, debugStr string) (*TestFile, error) {
 	lexer := baseparser.NewFuncTestCaseLexer(is)
+	errorListener := util.NewSimpleErrorListener()
+	lexer.AddErrorListener(errorListener)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := baseparser.NewFuncTestCaseParser(stream)
-	errorListener := util.NewSimpleErrorListener()
 	p.AddErrorListener(errorListener)
 	p.GetInterpreter().SetPredictionMode(antlr.PredictionModeSLL)
 
diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index d2b07e1..e28010e 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -49,6 +49,29 @@ func (v *TestCaseVisitor) validateNullLiteralType(ctx antlr.ParserRuleContext, n
 	}
 }
 
+// validateLiteralType reports a literal that is of another kind of type than the declared one.
+// Times and timestamps are not converted to the precision types they are declared with.
+func (v *TestCaseVisitor) validateLiteralType(ctx antlr.ParserRuleContext, lit expr.Literal, declared types.Type) {
+	if lit == nil || declared == nil {
+		return
+	}
+	if _, ok := lit.(*expr.NullLiteral); ok {
+		return
+	}
+	want := declared.ShortString()
+	switch declared.(type) {
+	case *types.PrecisionTimeType:
+		want = (&types.TimeType{}).ShortString()
+	case *types.PrecisionTimestampType:
+		want = (&types.TimestampType{}).ShortString()
+	case *types.PrecisionTimestampTzType:
+		want = (&types.TimestampTzType{}).ShortString()
+	}
+	if lit.GetType().ShortString() != want {
+		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("literal %s is not of type %s", lit, declared))
+	}
+}
+
 var _ baseparser.FuncTestCaseParserVisitor = &TestCaseVisitor{}
 
 func (v *TestCaseVisitor) Visit(tree antlr.ParseTree) interface{} {
@@ -97,7 +120,7 @@ func (v *TestCaseVisitor) VisitInclude(ctx *baseparser.IncludeContext) interface
 }
 
 func (v *TestCaseVisitor) VisitScalarFuncTestGroup(ctx *baseparser.ScalarFuncTestGroupContext) interface{} {
-	groupDesc := v.Visit(ctx.TestGroupDescription()).(string)
+	groupDesc, _ := v.Visit(ctx.TestGroupDescription()).(string) // which is optional
 	groupTestCases := make([]*TestCase, 0, len(ctx.AllTestCase()))
 	if v.testFuncType != ScalarFuncType {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("expected %v testcase based on test file header, but got scalar function testcase", v.testFuncType))
@@ -113,7 +136,7 @@ func (v *TestCaseVisitor) VisitScalarFuncTestGroup(ctx *baseparser.ScalarFuncTes
 }
 
 func (v *TestCaseVisitor) VisitAggregateFuncTestGroup(ctx *baseparser.AggregateFuncTestGroupContext) interface{} {
-	groupDesc := v.Visit(ctx.TestGroupDescription()).(string)
+	groupDesc, _ := v.Visit(ctx.TestGroupDescription()).(string) // which is optional
 	groupTestCases := make([]*TestCase, 0, len(ctx.AllAggFuncTestCase()))
 	if v.testFuncType != AggregateFuncType {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("expected %v testcase based on test file header, but got aggregate function testcase", v.testFuncType))
@@ -234,12 +257,19 @@ func (v *TestCaseVisitor) VisitTableData(ctx *baseparser.TableDataContext) inter
 func (v *TestCaseVisitor) getColumnsFromRows(ctx antlr.ParserRuleContext, rows [][]expr.Literal, columnTypes []types.Type) ([][]expr.Literal, []types.Type) {
 	columns := make([][]expr.Literal, 0, len(columnTypes))
 	retColumnTypes := make([]types.Type, 0, len(columnTypes))
+	for _, row := range rows {
+		if len(row) != len(columnTypes) {
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("row has %d values, expected %d", len(row), len(columnTypes)))
+			return columns, retColumnTypes
+		}
+	}
 	for i, columnType := range columnTypes {
 		newColumnType := columnType
 		column := make([]expr.Literal, 0, len(rows))
 		for _, row := range rows {
 			cell := v.getLiteral(ctx, row[i], columnType)
-			if _, ok := cell.(*expr.NullLiteral); ok {
+			v.validateLiteralType(ctx, cell, columnType)
+			if _, ok := cell.(*expr.NullLiteral); ok && columnType != nil {
 				newColumnType = columnType.WithNullability(types.NullabilityNullable)
 				cell = expr.NewNullLiteral(newColumnType)
 			}
@@ -292,9 +322,13 @@ func (v *TestCaseVisitor) VisitTableRows(ctx *baseparser.TableRowsContext) inter
 func (v *TestCaseVisitor) VisitColumnValues(ctx *baseparser.ColumnValuesContext) interface{} {
 	values := make([]expr.Literal, 0, len(ctx.AllLiteral()))
 	for _, literalValue := range ctx.AllLiteral() {
-		if result := v.Visit(literalValue); result != nil {
-			values = append(values, result.(expr.Literal))
+		result := v.Visit(literalValue)
+		if result == nil {
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid literal %s", literalValue.GetText()))
+			continue
 		}
+		v.validateLiteralType(ctx, result.(expr.Literal), v.getLiteralTypeInContext())
+		values = append(values, result.(expr.Literal))
 	}
 	return values
 }
@@ -501,6 +535,10 @@ func (v *TestCaseVisitor) getLiteralFromString(ctx antlr.ParserRuleContext, valu
 			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid fixedchar arg %v", err))
 			return nil
 		}
+		if err := checkFixedCharLength(fixedChar, elementType); err != nil {
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid fixedchar arg %v", err))
+			return nil
+		}
 		typed, err := fixedChar.(expr.WithTypeLiteral).WithType(elementType)
 		if err != nil {
 			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid fixedchar arg %v", err))
@@ -553,7 +591,16 @@ func getFloatLiteral(floatStr string, floatType types.Type) (expr.Literal, error
 }
 
 func getIntLiteral(integerStr string, intType types.Type) (expr.Literal, error) {
-	value, err := strconv.ParseInt(integerStr, 10, 64)
+	bitSize := 64
+	switch intType.(type) {
+	case *types.Int8Type:
+		bitSize = 8
+	case *types.Int16Type:
+		bitSize = 16
+	case *types.Int32Type:
+		bitSize = 32
+	}
+	value, err := strconv.ParseInt(integerStr, 10, bitSize)
 	if err != nil {
 		return nil, err
 	}
@@ -634,7 +681,15 @@ func (v *TestCaseVisitor) VisitTimestampArg(ctx *baseparser.TimestampArgContext)
 }
 
 func getRawStringFromStringLiteral(text string) string {
-	return strings.Trim(text, "'")
+	text = strings.TrimSuffix(strings.TrimPrefix(text, "'"), "'")
+	var b strings.Builder
+	for i := 0; i < len(text); i++ {
+		if text[i] == '\\' && i+1 < len(text) && (text[i+1] == '\\' || text[i+1] == '\'') {
+			i++
+		}
+		b.WriteByte(text[i])
+	}
+	return b.String()
 }
 
 func (v *TestCaseVisitor) VisitTimestampTzArg(ctx *baseparser.TimestampTzArgContext) interface{} {
@@ -753,9 +808,10 @@ func (v *TestCaseVisitor) VisitLiteralList(ctx *baseparser.LiteralListContext) i
 	for _, elemCtx := range elements {
 		result := v.Visit(elemCtx)
 		if result == nil {
-			// Child visitor already reported the error via ErrorListener.
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid list element %s", elemCtx.GetText()))
 			continue
 		}
+		v.validateLiteralType(ctx, result.(expr.Literal), v.getLiteralTypeInContext())
 		literals = append(literals, result.(expr.Literal))
 	}
 	return literals
@@ -1057,7 +1113,7 @@ func (v *TestCaseVisitor) VisitDecimalType(ctx *baseparser.DecimalTypeContext) i
 }
 
 func (v *TestCaseVisitor) VisitIntegerLiteral(ctx *baseparser.IntegerLiteralContext) interface{} {
-	value, err := strconv.Atoi(ctx.GetText())
+	value, err := strconv.ParseInt(ctx.GetText(), 10, 32)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid int arg %v", err))
 	}
-- 
2.43.0


From e8b43e41a43984e1db2e3163714bfbca916c33f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:08 +0000
Subject: [PATCH 84/85] fix: functions are found by the number of arguments
 they can be called with

---
 functions/functions.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/functions/functions.go b/functions/functions.go
index 77b5d77..1bb5c97 100644
--- a/functions/functions.go
+++ b/functions/functions.go
@@ -78,10 +78,22 @@ func (f *functionRegistryImpl) GetWindowFunctions(name string, numArgs int) []*e
 	return getFunctionVariantsByCount(f.GetWindowFunctionsByName(name), numArgs)
 }
 
+// hasArgumentCount returns whether the function is declared with the given number of
+// arguments or, when it is variadic, can be called with that many. The variadic
+// behavior applies to the last declared argument.
+func hasArgumentCount(f extensions.FunctionVariant, numArgs int) bool {
+	numParams := len(f.Args())
+	if numArgs == numParams {
+		return true
+	}
+	numVariadicArgs := numArgs - (numParams - 1)
+	return numParams > 0 && numVariadicArgs >= 0 && f.Variadic().IsValidArgumentCount(numVariadicArgs)
+}
+
 func getFunctionVariantsByCount[T extensions.FunctionVariant](functions []T, numArgs int) []T {
 	ret := make([]T, 0)
 	for _, f := range functions {
-		if len(f.Args()) == numArgs || f.Variadic().IsValidArgumentCount(numArgs) {
+		if hasArgumentCount(f, numArgs) {
 			ret = append(ret, f)
 		}
 	}
-- 
2.43.0


From d8a865e97d983a89c5c2a2e3f7f611ae5f4329cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:12 +0000
Subject: [PATCH 85/85] fix: values of test case tables are of the types of
 their columns, tables can have no rows

---
 testcases/parser/visitor.go | 49 ++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index e28010e..266080b 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -169,15 +169,20 @@ func (v *TestCaseVisitor) VisitSingleArgAggregateFuncCall(ctx *baseparser.Single
 }
 
 func (v *TestCaseVisitor) VisitCompactAggregateFuncCall(ctx *baseparser.CompactAggregateFuncCallContext) interface{} {
-	rows := v.Visit(ctx.TableRows()).([][]expr.Literal)
 	var args []*AggregateArgument
 	if ctx.AggregateFuncArgs() != nil {
 		args = v.Visit(ctx.AggregateFuncArgs()).([]*AggregateArgument)
 	}
 
-	numberOfColumns := int32(len(rows[0]))
+	var numberOfColumns int32
+	if firstRow := ctx.TableRows().ColumnValues(0); firstRow != nil {
+		numberOfColumns = int32(len(firstRow.AllLiteral()))
+	}
 	columnTypes := make([]types.Type, numberOfColumns)
 	for _, arg := range args {
+		if arg.IsScalar {
+			continue
+		}
 		if arg.ColumnIndex >= numberOfColumns {
 			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid column index %d, expected less than %d", arg.ColumnIndex, len(columnTypes)))
 			continue
@@ -186,6 +191,7 @@ func (v *TestCaseVisitor) VisitCompactAggregateFuncCall(ctx *baseparser.CompactA
 			columnTypes[arg.ColumnIndex] = arg.ColumnType
 		}
 	}
+	rows := v.getRows(ctx.TableRows(), columnTypes)
 	columns, newColumnTypes := v.getColumnsFromRows(ctx, rows, columnTypes)
 	return &TestCase{
 		FuncName:      ctx.Identifier().GetText(),
@@ -241,11 +247,11 @@ func (v *TestCaseVisitor) VisitQualifiedAggregateFuncArg(ctx *baseparser.Qualifi
 
 func (v *TestCaseVisitor) VisitTableData(ctx *baseparser.TableDataContext) interface{} {
 	columnTypes := make([]types.Type, 0, len(ctx.AllDataType()))
-	rows := v.Visit(ctx.TableRows()).([][]expr.Literal)
 	for _, dataType := range ctx.AllDataType() {
 		columnType := v.Visit(dataType).(types.Type)
 		columnTypes = append(columnTypes, columnType)
 	}
+	rows := v.getRows(ctx.TableRows(), columnTypes)
 	columns, newColumnTypes := v.getColumnsFromRows(ctx, rows, columnTypes)
 	return &TestCase{
 		Columns:     columns,
@@ -311,11 +317,26 @@ func (v *TestCaseVisitor) VisitDataColumn(ctx *baseparser.DataColumnContext) int
 	}
 }
 
-func (v *TestCaseVisitor) VisitTableRows(ctx *baseparser.TableRowsContext) interface{} {
+// getRows returns the rows of a table. The type of a column is nil if it is not known.
+func (v *TestCaseVisitor) getRows(ctx baseparser.ITableRowsContext, columnTypes []types.Type) [][]expr.Literal {
 	rows := make([][]expr.Literal, 0, len(ctx.AllColumnValues()))
 	for _, row := range ctx.AllColumnValues() {
-		rows = append(rows, v.Visit(row).([]expr.Literal))
+		values := make([]expr.Literal, 0, len(columnTypes))
+		for i, literalValue := range row.AllLiteral() {
+			v.clearLiteralTypeInContext()
+			if i < len(columnTypes) {
+				v.setLiteralTypeInContext(columnTypes[i])
+			}
+			result := v.Visit(literalValue)
+			if result == nil {
+				v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid literal %s", literalValue.GetText()))
+				continue
+			}
+			values = append(values, result.(expr.Literal))
+		}
+		rows = append(rows, values)
 	}
+	v.clearLiteralTypeInContext()
 	return rows
 }
 
@@ -825,24 +846,24 @@ func (v *TestCaseVisitor) VisitListElement(ctx *baseparser.ListElementContext) i
 		// For nested lists like [[1,2],[3,4]]::list<list<i32>>, the parent context
 		// has the element type set to list<i32>. We need to unwrap one level so
 		// that inner literals resolve against i32 instead of list<i32>.
-		parentType := v.getLiteralTypeInContext()
-		if lt, ok := parentType.(*types.ListType); ok {
-			v.setLiteralTypeInContext(lt.Type)
-			defer v.setLiteralTypeInContext(parentType)
+		listType, hasType := v.getLiteralTypeInContext().(*types.ListType)
+		if hasType {
+			v.setLiteralTypeInContext(listType.Type)
+			defer v.setLiteralTypeInContext(listType)
 		}
 
 		values := v.Visit(ctx.LiteralList()).([]expr.Literal)
 		if len(values) == 0 {
-			// For empty nested lists, use the element type from the parent list context
-			if elemType := v.getLiteralTypeInContext(); elemType != nil {
-				if lt, ok := elemType.(*types.ListType); ok {
-					return expr.NewEmptyListLiteral(lt.Type, false)
-				}
+			if hasType {
+				return expr.NewEmptyListLiteral(listType.Type, listType.Nullability == types.NullabilityNullable)
 			}
 			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("cannot determine element type for empty nested list"))
 			return nil
 		}
 		value, err := literal.NewList(values, false)
+		if err == nil && hasType {
+			value, err = value.(expr.WithTypeLiteral).WithType(listType)
+		}
 		if err != nil {
 			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid nested list %v", err))
 		}
-- 
2.43.0

