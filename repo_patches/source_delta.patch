From 5b2cf148cc138df9f60844f5e44f8598df271087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:59 +0000
Subject: [PATCH 01/78] fix: AddReturnType appends a return type only when no
 existing one matches

It appended as soon as any existing entry differed, so a list with two or
more entries gained duplicates.
---
 safePushing.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/safePushing.go b/safePushing.go
index 82cd297..bb50373 100644
--- a/safePushing.go
+++ b/safePushing.go
@@ -7,11 +7,16 @@ func AddReturnType(prev []ReturnType, n ...ReturnType) []ReturnType {
 		if len(prev) == 0 {
 			prev = append(prev, newReturn)
 		} else {
+			found := false
 			for _, existingReturn := range prev {
 				if newReturn.Field.Type != existingReturn.Field.Type || newReturn.Field.Package != existingReturn.Field.Package || newReturn.StatusCode != existingReturn.StatusCode || newReturn.ContentType != existingReturn.ContentType {
-					prev = append(prev, newReturn)
-					break
+					continue
 				}
+				found = true
+				break
+			}
+			if !found {
+				prev = append(prev, newReturn)
 			}
 		}
 	}
-- 
2.43.0


From 5f48854ec13478abe27a0aabda8bdf08fd86fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:59 +0000
Subject: [PATCH 02/78] fix: keep the current route when a context call cannot
 be resolved

Build returned a nil route together with the error, and the handler parser
assigns that route before it looks at the error, so the next context call of
the handler (or the final check) dereferenced nil and panicked.
---
 contextFuncBuilder.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/contextFuncBuilder.go b/contextFuncBuilder.go
index cc14aea..d692b9b 100644
--- a/contextFuncBuilder.go
+++ b/contextFuncBuilder.go
@@ -69,13 +69,18 @@ func (c *ContextFuncBuilder) Build(mapper func(*Route, []any) (*Route, error)) (
 	for i, operation := range c.paramOperations {
 		result, err := operation()
 		if err != nil {
-			return nil, err
+			return c.Route, err
 		}
 
 		results[i] = result
 	}
 
-	return mapper(c.Route, results)
+	route, err := mapper(c.Route, results)
+	if err != nil {
+		return c.Route, err
+	}
+
+	return route, nil
 }
 
 type CustomFunc func(contextVarName string, contextFuncBuilder *ContextFuncBuilder) (*Route, error)
-- 
2.43.0


From d7be7184bfe98950933a6d03a4eb5fb83014d3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 03/78] fix: do not index the name list of an embedded struct
 field

A struct that embeds a type of its own package made the type traverser panic.
---
 astTraversal/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index aca6adf..794fe96 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -232,7 +232,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 
 				node, err := structFieldResult.Package.ASTAtPos(pos)
 				if err == nil && node != nil {
-					if field, ok := node.(*ast.Field); ok {
+					if field, ok := node.(*ast.Field); ok && len(field.Names) > 0 {
 						t.Traverser.Log.Debug().Str("field", field.Names[0].Name).Msg("Found doc for field")
 						structFieldResult.Doc = FormatDoc(field.Doc.Text())
 					}
-- 
2.43.0


From 9ddf5bb95266e167163306162c6550cca6a3996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 04/78] fix: read the arguments of Context.Data from the right
 positions

The result is the third argument, the second is the content type; every Data
response was dropped with "failed to parse result".
---
 inputs/gin/parseFunction.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index bba2ef9..8cc2ff4 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -223,20 +223,26 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "Data":
-					currRoute, err = funcBuilder.StatusCode().Ignored().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					currRoute, err = funcBuilder.StatusCode().Value().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
 						if !ok {
 							return nil, errors.New("failed to parse status code")
 						}
 
-						result, ok := params[1].(astTraversal.Result)
+						contentType, ok := params[1].(string)
+						if !ok {
+							return nil, errors.New("failed to parse content type")
+						}
+
+						result, ok := params[2].(astTraversal.Result)
 						if !ok {
 							return nil, errors.New("failed to parse result")
 						}
 
 						returnType := astra.ReturnType{
-							StatusCode: statusCode,
-							Field:      astra.ParseResultToField(result),
+							StatusCode:  statusCode,
+							ContentType: contentType,
+							Field:       astra.ParseResultToField(result),
 						}
 
 						route.ReturnTypes = astra.AddReturnType(route.ReturnTypes, returnType)
-- 
2.43.0


From 0edf9728ff7a64fcfe08b8ef38949e9a8845498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 05/78] fix: look for context calls inside conversions,
 built-ins and function literals

len(c.Query("q")), MyType(c.Query("q")) and func() { c.JSON(...) }() were
skipped together with everything inside them.
---
 inputs/gin/parseFunction.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 8cc2ff4..60e6b8e 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -106,7 +106,10 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			var funcType *types.Func
 			funcType, err = callExpr.Type()
 			if err != nil {
-				return false
+				// A conversion, built-in or function literal, it's not a context method itself
+				// But there could be one in its arguments or body
+				err = nil
+				return true
 			}
 
 			signature, ok := funcType.Type().(*types.Signature)
-- 
2.43.0


From 298726156cb0ee3dabe3eb9e7df3cc266f5a5780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 06/78] fix: restore the active file when a followed function
 fails to parse

The rest of the handler was resolved against the file and package of the
function that failed.
---
 inputs/gin/parseFunction.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 60e6b8e..330c73a 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -91,17 +91,17 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			var function *astTraversal.FunctionTraverser
 			function, err = callExpr.Function()
 			if err != nil {
+				traverser.SetActiveFile(activeFile)
 				traverser.Log.Error().Err(err).Msg("failed to get function")
 				return false
 			}
 
 			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1)
+			traverser.SetActiveFile(activeFile)
 			if err != nil {
 				traverser.Log.Error().Err(err).Msg("error parsing function")
 				return false
 			}
-
-			traverser.SetActiveFile(activeFile)
 		} else {
 			var funcType *types.Func
 			funcType, err = callExpr.Type()
-- 
2.43.0


From dcf8199c7665a53881856ab4c1bee8602c2a40d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 07/78] fix: follow a recursive function only once

A function that passes the context to itself, directly or through others, was
followed until the stack overflowed.
---
 inputs/gin/parseFunction.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 330c73a..1a89423 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"go/ast"
 	"go/types"
+	"slices"
 	"strings"
 
 	"github.com/ls6-events/astra"
@@ -25,7 +26,8 @@ const (
 // And the package name and path are used to determine the package of the currently analysed function.
 // The currRoute reference is used to manipulate the current route being analysed.
 // The imports are used to determine the package of the context variable.
-func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, level int) error {
+// The callers are the bodies of the functions currently being analysed, so that recursive functions are only followed once.
+func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, level int, callers ...*ast.BlockStmt) error {
 	traverser := funcTraverser.Traverser
 
 	traverser.SetActiveFile(activeFile)
@@ -96,7 +98,13 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 				return false
 			}
 
-			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1)
+			followed := append(slices.Clone(callers), funcTraverser.Node.Body)
+			if slices.Contains(followed, function.Node.Body) {
+				traverser.SetActiveFile(activeFile)
+				return true
+			}
+
+			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1, followed...)
 			traverser.SetActiveFile(activeFile)
 			if err != nil {
 				traverser.Log.Error().Err(err).Msg("error parsing function")
-- 
2.43.0


From 6c5debc1c4e3a78149768ed432f855b3275a6cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 08/78] fix: stop at a named type that refers to itself

A recursive type (a list node, a tree, mutually recursive structs) was
traversed until the stack overflowed.
---
 astTraversal/traverser.go | 4 +++-
 astTraversal/type.go      | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/astTraversal/traverser.go b/astTraversal/traverser.go
index 846e597..8859f03 100644
--- a/astTraversal/traverser.go
+++ b/astTraversal/traverser.go
@@ -14,12 +14,14 @@ type BaseTraverser struct {
 	Packages           *PackageManager
 	shouldAddComponent bool
 	addComponent       func(result Result) error
+	addingComponents   map[string]bool
 }
 
 func New(workDir string) *BaseTraverser {
 	packages := NewPackageManager(workDir)
 	return &BaseTraverser{
-		Packages: packages,
+		Packages:         packages,
+		addingComponents: make(map[string]bool),
 	}
 }
 
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 794fe96..4cb395c 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -136,7 +136,12 @@ func (t *TypeTraverser) Result() (Result, error) {
 				return Result{}, err
 			}
 
-			if t.Traverser.shouldAddComponent {
+			// A type that refers to itself is already being added further up
+			typeID := n.Obj().Pkg().Path() + "." + n.Obj().Name()
+			if t.Traverser.shouldAddComponent && !t.Traverser.addingComponents[typeID] {
+				t.Traverser.addingComponents[typeID] = true
+				defer delete(t.Traverser.addingComponents, typeID)
+
 				namedUnderlyingResult, err := t.Traverser.Type(n.Underlying(), pkg).SetName(n.Obj().Name()).Result()
 				if err != nil {
 					return Result{}, err
-- 
2.43.0


From f4d26e701f8be59d5e8b6b8c8f1bf1fb8904c308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 09/78] fix: use the value of constant expressions as it is

A string constant came out quoted (and shortened), a raw or escaped literal
with its source spelling, a constant of another package was looked up by name
among all identifiers of that package, and constant expressions were not
resolved at all.
---
 astTraversal/expression.go | 39 ++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 52790b4..ff6ea0d 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -3,6 +3,7 @@ package astTraversal
 import (
 	"errors"
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"go/types"
 	"strings"
@@ -45,7 +46,29 @@ func (e *ExpressionTraverser) BuiltInFunctions(callExpr *ast.CallExpr) (types.Ty
 	return nil, nil
 }
 
+// constantValue returns the value of an expression that the type checker knows to be constant.
+func (e *ExpressionTraverser) constantValue() (string, bool) {
+	if e.File == nil || e.File.Package == nil || e.File.Package.Package == nil || e.File.Package.Package.TypesInfo == nil {
+		return "", false
+	}
+
+	value := e.File.Package.Package.TypesInfo.Types[e.Node].Value
+	if value == nil {
+		return "", false
+	}
+
+	if value.Kind() == constant.String {
+		return constant.StringVal(value), true
+	}
+
+	return value.ExactString(), true
+}
+
 func (e *ExpressionTraverser) Value() (string, error) {
+	if value, ok := e.constantValue(); ok {
+		return value, nil
+	}
+
 	switch n := e.Node.(type) {
 	case *ast.BasicLit:
 		value := n.Value
@@ -60,8 +83,12 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", err
 		}
 
-		if constant, ok := obj.(*types.Const); ok {
-			return constant.Val().String(), nil
+		if constObj, ok := obj.(*types.Const); ok {
+			if constObj.Val().Kind() == constant.String {
+				return constant.StringVal(constObj.Val()), nil
+			}
+
+			return constObj.Val().String(), nil
 		}
 
 		node, err := e.File.Package.ASTAtPos(obj.Pos())
@@ -102,8 +129,12 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", err
 		}
 
-		if constant, ok := obj.(*types.Const); ok {
-			return constant.Val().String(), nil
+		if constObj, ok := obj.(*types.Const); ok {
+			if constObj.Val().Kind() == constant.String {
+				return constant.StringVal(constObj.Val()), nil
+			}
+
+			return constObj.Val().String(), nil
 		}
 
 		node, err := pkg.ASTAtPos(obj.Pos())
-- 
2.43.0


From ef6180e0c7392afe4209449a55384bafbcac541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 10/78] fix: return an error for a declaration without its own
 value

"var x string" and "a, b := f()" made the traverser panic.
---
 astTraversal/declaration.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/astTraversal/declaration.go b/astTraversal/declaration.go
index 17aefa3..9d9d8a0 100644
--- a/astTraversal/declaration.go
+++ b/astTraversal/declaration.go
@@ -31,6 +31,10 @@ func (d *DeclarationTraverser) Value() (ast.Node, error) {
 			}
 		}
 
+		if index >= len(n.Values) {
+			return nil, ErrInvalidIndex
+		}
+
 		return n.Values[index], nil
 	case *ast.AssignStmt:
 		var index int
@@ -41,6 +45,10 @@ func (d *DeclarationTraverser) Value() (ast.Node, error) {
 			}
 		}
 
+		if index >= len(n.Rhs) {
+			return nil, ErrInvalidIndex
+		}
+
 		return n.Rhs[index], nil
 	default:
 		return nil, ErrInvalidNodeType
-- 
2.43.0


From a767c650632aa9447bca14591b55d465254faa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 11/78] fix: skip unnamed and predeclared-type parameters when
 looking for the context

func(*gin.Context) and func(err *error, c *gin.Context) made the traverser
panic.
---
 astTraversal/function.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/astTraversal/function.go b/astTraversal/function.go
index 8bee5cc..b117e69 100644
--- a/astTraversal/function.go
+++ b/astTraversal/function.go
@@ -52,6 +52,10 @@ func (f *FunctionTraverser) Results() []*ast.Field {
 
 func (f *FunctionTraverser) FindArgumentNameByType(typeName string, packagePath string, isPointer bool) string {
 	for _, arg := range f.Arguments() {
+		if len(arg.Names) == 0 {
+			continue
+		}
+
 		argType, err := f.File.Package.FindTypeForExpr(arg.Type)
 		if err != nil {
 			continue
@@ -65,7 +69,7 @@ func (f *FunctionTraverser) FindArgumentNameByType(typeName string, packagePath
 			}
 		}
 
-		if named, ok := argType.(*types.Named); ok && named.Obj().Pkg().Path() == packagePath && named.Obj().Name() == typeName {
+		if named, ok := argType.(*types.Named); ok && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() == packagePath && named.Obj().Name() == typeName {
 			return arg.Names[0].Name
 		} else if basic, ok := argType.(*types.Basic); ok && basic.Name() == typeName {
 			return arg.Names[0].Name
-- 
2.43.0


From 388a2f3b18272a24ec7879e286a786d760c9dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 12/78] fix: use the field name when a struct field lacks the
 tag of the binding

A component with one such field was left out while still being referenced,
and the component of one binding was overwritten with the one of another.
---
 outputs/openapi/components.go | 46 +++++++++++++++++++++++++++++++++--
 outputs/openapi/generate.go   |  4 +--
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 68405fd..32e0dd6 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -78,6 +78,7 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 		// Iterate over every component and create a collision safe name.
 		for _, component := range components {
 			bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
+			uniqueBindings = uniqueBindings || hasPartialBindings(component.StructFields, bindingTags)
 			for _, bindingType := range bindingTags {
 				// If sameUntil is greater than 0, we need to remove the package path up to the point where they first don't match.
 				if sameUntil > 0 {
@@ -132,6 +133,46 @@ func makeComponentRefName(bindingType astTraversal.BindingTagType, name, pkg str
 	return componentName, bound
 }
 
+// orderBindingTags orders the bindings of a component for when they share a single name.
+// The bindings that the component has tags for come first, and JSON comes before the others.
+func orderBindingTags(component astra.Field) []astTraversal.BindingTagType {
+	declared, _ := astra.ExtractBindingTags(component.StructFields)
+
+	rank := func(bindingType astTraversal.BindingTagType) int {
+		rank := 0
+		if !slices.Contains(declared, bindingType) {
+			rank += 2
+		}
+		if bindingType != astTraversal.JSONBindingTag {
+			rank++
+		}
+		return rank
+	}
+
+	ordered := slices.Clone(astTraversal.BindingTags)
+	slices.SortStableFunc(ordered, func(a, b astTraversal.BindingTagType) int {
+		return rank(a) - rank(b)
+	})
+
+	return ordered
+}
+
+// hasPartialBindings is whether a component has fields that are tagged for different bindings.
+func hasPartialBindings(fields map[string]astra.Field, bindingTags []astTraversal.BindingTagType) bool {
+	for _, field := range fields {
+		if _, untagged := field.StructFieldBindingTags[astTraversal.NoBindingTag]; untagged || len(field.StructFieldBindingTags) == 0 {
+			continue
+		}
+		for _, bindingType := range bindingTags {
+			if _, tagged := field.StructFieldBindingTags[bindingType]; !tagged && bindingType != astTraversal.NoBindingTag {
+				return true
+			}
+		}
+	}
+
+	return false
+}
+
 // componentToSchema converts a component to a schema.
 func componentToSchema(service *astra.Service, component astra.Field, bindingType astTraversal.BindingTagType) (schema Schema, bound bool) {
 	if _, ok := service.GetTypeMapping(component.Name, component.Package); ok {
@@ -144,7 +185,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 			Type:       "object",
 			Properties: make(map[string]Schema),
 		}
-		for _, field := range component.StructFields {
+		for fieldName, field := range component.StructFields {
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
 			if field.IsEmbedded {
@@ -161,7 +202,8 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 			fieldBinding := field.StructFieldBindingTags[bindingType]
 			fieldNoBinding := field.StructFieldBindingTags[astTraversal.NoBindingTag]
 			if fieldBinding == (astTraversal.BindingTag{}) && fieldNoBinding == (astTraversal.BindingTag{}) {
-				return Schema{}, false
+				// The field doesn't have the tag of this binding, so the binding uses the name of the field.
+				fieldNoBinding = astTraversal.BindingTag{Name: fieldName}
 			}
 			if fieldBinding == (astTraversal.BindingTag{}) {
 				fieldBinding = fieldNoBinding
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 7829bbf..cd4c581 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -251,7 +251,7 @@ func Generate(filePath string) astra.ServiceFunction {
 
 		s.Log.Debug().Msg("Adding components")
 		for _, component := range s.Components {
-			for _, bindingType := range astTraversal.BindingTags {
+			for _, bindingType := range orderBindingTags(component) {
 				schema, bound := componentToSchema(s, component, bindingType)
 				if !bound {
 					continue
@@ -264,7 +264,7 @@ func Generate(filePath string) astra.ServiceFunction {
 				}
 
 				componentName, bound := makeComponentRefName(bindingType, component.Name, component.Package)
-				if bound {
+				if _, exists := components.Schemas[componentName]; bound && !exists {
 					components.Schemas[componentName] = schema
 				}
 			}
-- 
2.43.0


From 75c7b4a97c9ad128eb5a2c55fa24e6ae2e0314d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:16 +0000
Subject: [PATCH 13/78] fix: write the parameters and embedded structs of a
 specification in a fixed order

The order depended on the iteration order of a map.
---
 outputs/openapi/components.go | 10 +++++++++-
 outputs/openapi/generate.go   |  5 ++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 32e0dd6..1e8991d 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -185,7 +185,15 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 			Type:       "object",
 			Properties: make(map[string]Schema),
 		}
-		for fieldName, field := range component.StructFields {
+		fieldNames := make([]string, 0, len(component.StructFields))
+		for fieldName := range component.StructFields {
+			fieldNames = append(fieldNames, fieldName)
+		}
+		slices.Sort(fieldNames)
+
+		for _, fieldName := range fieldNames {
+			field := component.StructFields[fieldName]
+
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
 			if field.IsEmbedded {
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index cd4c581..2dd86dc 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -213,7 +213,10 @@ func Generate(filePath string) astra.ServiceFunction {
 			}
 
 			// Sort parameters by name
-			sort.Slice(operation.Parameters, func(i, j int) bool {
+			sort.SliceStable(operation.Parameters, func(i, j int) bool {
+				if operation.Parameters[i].Name == operation.Parameters[j].Name {
+					return operation.Parameters[i].In < operation.Parameters[j].In
+				}
 				return operation.Parameters[i].Name < operation.Parameters[j].Name
 			})
 
-- 
2.43.0


From 7f376f08cf0096eb0018566d58f937689d44fb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 14/78] fix: keep the schema of an array that is used directly

An array is not an accepted type nor a component, so its schema was dropped.
---
 outputs/openapi/schema.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 8417b96..e84b756 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -42,6 +42,13 @@ func mapParamToSchema(bindingType astTraversal.BindingTagType, param astra.Param
 }
 
 func mapFieldToSchema(bindingType astTraversal.BindingTagType, field astra.Field) (Schema, bool) {
+	if field.Type == "array" {
+		// An array is documented like a slice with a fixed number of items
+		schema, bound := mapFieldToSchema(bindingType, astra.Field{Type: "slice", SliceType: field.ArrayType, Package: field.Package})
+		schema.MaxLength = int(field.ArrayLength)
+		return schema, bound
+	}
+
 	if !astra.IsAcceptedType(field.Type) {
 		componentRef, bound := makeComponentRef(bindingType, field.Type, field.Package)
 		if bound {
-- 
2.43.0


From 8d4f621b231f7e93c9ec6c9e6a1e5147fb5a1d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 15/78] fix: keep the format of the items of a slice that is
 used directly

---
 outputs/openapi/schema.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index e84b756..cf5c5c2 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -61,9 +61,7 @@ func mapFieldToSchema(bindingType astTraversal.BindingTagType, field astra.Field
 	} else {
 		schema := mapPredefinedTypeFormat(field.Type)
 		if field.Type == "slice" {
-			itemSchema := Schema{
-				Type: mapPredefinedTypeFormat(field.SliceType).Type,
-			}
+			itemSchema := mapPredefinedTypeFormat(field.SliceType)
 			if !astra.IsAcceptedType(field.SliceType) {
 				componentRef, bound := makeComponentRef(bindingType, field.SliceType, field.Package)
 				if bound {
-- 
2.43.0


From 0f7cfd3d58774e69605ac83fafed954f7087dcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 16/78] fix: use the default type of an untyped constant

---
 astTraversal/type.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 4cb395c..cc34b09 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -34,6 +34,11 @@ func (t *TypeTraverser) Result() (Result, error) {
 	var result Result
 	switch n := t.Node.(type) {
 	case *types.Basic:
+		// The type of an untyped constant is its default type
+		if basic, ok := types.Default(n).(*types.Basic); ok && basic.Kind() != types.UntypedNil {
+			n = basic
+		}
+
 		result = Result{
 			Type:    n.Name(),
 			Package: t.Package,
-- 
2.43.0


From 05432700fda534af5897cc5ac8601ebe3c7b1665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 17/78] fix: drop the enum values of a substituted type

time.Duration was restricted to the value of time.Nanosecond.
---
 substituteTypes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/substituteTypes.go b/substituteTypes.go
index 7fb7219..efd9e88 100644
--- a/substituteTypes.go
+++ b/substituteTypes.go
@@ -21,6 +21,7 @@ func (s *Service) HandleSubstituteTypes(component *Field) {
 		component.Type = substituteTypes[qualifiedName]
 
 		component.StructFields = nil
+		component.EnumValues = nil
 		component.SliceType = ""
 		component.MapValueType = ""
 	}
-- 
2.43.0


From bda0f1ad15a67daba211966ea43eef341ddb3bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 18/78] fix: clean the fields of request and response headers
 too

---
 clean.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clean.go b/clean.go
index 35a57f3..ac149bf 100644
--- a/clean.go
+++ b/clean.go
@@ -26,6 +26,14 @@ func (s *Service) Clean() error {
 		for j := 0; j < len(s.Routes[i].QueryParams); j++ {
 			s.Routes[i].QueryParams[j].Field = s.cleanField(s.Routes[i].QueryParams[j].Field, mainPkg)
 		}
+		for j := 0; j < len(s.Routes[i].RequestHeaders); j++ {
+			s.Routes[i].RequestHeaders[j].Field = s.cleanField(s.Routes[i].RequestHeaders[j].Field, mainPkg)
+		}
+
+		for j := 0; j < len(s.Routes[i].ResponseHeaders); j++ {
+			s.Routes[i].ResponseHeaders[j].Field = s.cleanField(s.Routes[i].ResponseHeaders[j].Field, mainPkg)
+		}
+
 		for j := 0; j < len(s.Routes[i].Body); j++ {
 			s.Routes[i].Body[j].Field = s.cleanField(s.Routes[i].Body[j].Field, mainPkg)
 		}
-- 
2.43.0


From 8906f46082c0512822c4e30f5f07e290ca0093db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 19/78] fix: document the TRACE operations

---
 outputs/openapi/generate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 2dd86dc..5145dc4 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -241,6 +241,8 @@ func Generate(filePath string) astra.ServiceFunction {
 				endpointPath.Head = &operation
 			case http.MethodOptions:
 				endpointPath.Options = &operation
+			case http.MethodTrace:
+				endpointPath.Trace = &operation
 			}
 
 			paths[endpoint.Path] = endpointPath
-- 
2.43.0


From a3b0a18a5ed384a99edb8e3f2d58fd89ce4bfb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 20/78] fix: accept the directory path of a cached Azure
 Functions output

---
 cli/astra/cmd/rebind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/astra/cmd/rebind.go b/cli/astra/cmd/rebind.go
index ec4d33a..d549c60 100644
--- a/cli/astra/cmd/rebind.go
+++ b/cli/astra/cmd/rebind.go
@@ -50,7 +50,7 @@ func rebindOutputs(s *astra.Service) error {
 		switch output.Mode {
 		case outputs.OutputModeAzureFunctions:
 			directoryPath, ok := output.Configuration[astra.IOConfigurationKeyDirectoryPath].(string)
-			if ok || directoryPath == "" {
+			if !ok || directoryPath == "" {
 				return astra.ErrOutputDirectoryPathRequired
 			}
 			outputs.WithAzureFunctionsOutput(directoryPath)(s)
-- 
2.43.0


From eb7a1f8e0fdbcd085fc1139b4aba5f56b931b404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 21/78] fix: restore the custom type mapping from the cache

---
 cache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cache.go b/cache.go
index c6865bc..ed506dc 100644
--- a/cache.go
+++ b/cache.go
@@ -109,6 +109,12 @@ func (s *Service) LoadCacheFromCustomPath(cachePath string) error {
 	s.Config = service.Config
 	s.Routes = service.Routes
 	s.Components = service.Components
+
+	// The mapping is only replaced when there is one in the cache
+	if service.CustomTypeMapping != nil {
+		s.CustomTypeMapping = service.CustomTypeMapping
+		s.fullTypeMapping = nil
+	}
 	return nil
 }
 
-- 
2.43.0


From a3afacccd6860af64a480e20fd3bbd320cb217c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 22/78] fix: leave the functions of inputs and outputs out of a
 YAML cache

YAML cannot marshal a function, so caching to a YAML file always failed.
---
 input.go  | 4 ++--
 output.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/input.go b/input.go
index d74e0e1..742c4a9 100644
--- a/input.go
+++ b/input.go
@@ -3,8 +3,8 @@ package astra
 // Input is the input for the generator.
 type Input struct {
 	Mode         InputMode       `json:"mode"`
-	CreateRoutes ServiceFunction `json:"-"`
-	ParseRoutes  ServiceFunction `json:"-"`
+	CreateRoutes ServiceFunction `json:"-" yaml:"-"`
+	ParseRoutes  ServiceFunction `json:"-" yaml:"-"`
 }
 
 type InputMode string
diff --git a/output.go b/output.go
index 8f08481..8719e89 100644
--- a/output.go
+++ b/output.go
@@ -4,7 +4,7 @@ package astra
 // It takes in a configuration object to allow the caching mechanism to store the file paths for the outputs.
 type Output struct {
 	Mode          OutputMode      `json:"mode"`
-	Generate      ServiceFunction `json:"-"`
+	Generate      ServiceFunction `json:"-" yaml:"-"`
 	Configuration IOConfiguration `json:"configuration"`
 }
 
-- 
2.43.0


From 796c6e7e5a0f66c494b8536f7c6db56e67924e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 23/78] fix: document every named form field of a request body

Only the last one of each content type was kept.
---
 outputs/openapi/generate.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 5145dc4..73d6cab 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -162,6 +162,14 @@ func Generate(filePath string) astra.ServiceFunction {
 					mediaType.Schema = schema
 				}
 
+				// The other named parameters of the same content type are properties of the same body
+				if previous, exists := operation.RequestBody.Content[bodyParam.ContentType]; exists && bodyParam.Name != "" {
+					if previous.Schema.Properties != nil {
+						previous.Schema.Properties[bodyParam.Name] = schema
+						continue
+					}
+				}
+
 				operation.RequestBody.Content[bodyParam.ContentType] = mediaType
 			}
 
-- 
2.43.0


From 3c4ef5408307a1ff652abe48d5bd80b7e59186cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 24/78] fix: document array and map form fields as arrays and
 maps

---
 outputs/openapi/generate.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 73d6cab..580dca5 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -144,6 +144,17 @@ func Generate(filePath string) astra.ServiceFunction {
 					continue
 				}
 
+				if bodyParam.IsArray || bodyParam.IsMap {
+					schema, bound = mapParamToSchema(bindingType, astra.Param{
+						Field:   bodyParam.Field,
+						IsArray: bodyParam.IsArray,
+						IsMap:   bodyParam.IsMap,
+					})
+					if !bound {
+						continue
+					}
+				}
+
 				if operation.RequestBody == nil {
 					operation.RequestBody = &RequestBody{
 						Content: map[string]MediaType{},
-- 
2.43.0


From 9a33853cdc5072c455e61aa387b7eb0e8cd511f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 25/78] fix: document the query parameters of embedded structs

---
 outputs/openapi/generate.go |  2 +-
 outputs/openapi/schema.go   | 39 +++++++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 580dca5..d7147d9 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -106,7 +106,7 @@ func Generate(filePath string) astra.ServiceFunction {
 						continue
 					}
 
-					for propertyName, propertySchema := range component.Properties {
+					for propertyName, propertySchema := range boundProperties(s, field, astTraversal.FormBindingTag, component) {
 						style, explode := getQueryParamStyle(propertySchema)
 
 						parameter := Parameter{
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index cf5c5c2..daacaab 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -1,6 +1,9 @@
 package openapi
 
 import (
+	"maps"
+	"slices"
+
 	"github.com/ls6-events/astra"
 	"github.com/ls6-events/astra/astTraversal"
 )
@@ -131,6 +134,42 @@ func getQueryParamStyle(schema Schema) (style string, explode bool) {
 	return "form", false
 }
 
+// boundProperties returns the properties of the schema of a bound struct, and those of its embedded structs.
+func boundProperties(s *astra.Service, component astra.Field, bindingType astTraversal.BindingTagType, schema Schema, parents ...string) map[string]Schema {
+	properties := make(map[string]Schema)
+	parents = append(slices.Clone(parents), component.Package+"."+component.Name)
+
+	fieldNames := make([]string, 0, len(component.StructFields))
+	for fieldName := range component.StructFields {
+		fieldNames = append(fieldNames, fieldName)
+	}
+	slices.Sort(fieldNames)
+
+	for _, fieldName := range fieldNames {
+		field := component.StructFields[fieldName]
+		if !field.IsEmbedded || slices.Contains(parents, field.Package+"."+field.Type) {
+			continue
+		}
+
+		embedded, found := findComponentByPackageAndType(s.Components, field.Package, field.Type)
+		if !found {
+			continue
+		}
+
+		embeddedSchema, bound := componentToSchema(s, embedded, bindingType)
+		if bound {
+			maps.Copy(properties, boundProperties(s, embedded, bindingType, embeddedSchema, parents...))
+		}
+	}
+
+	for _, part := range schema.AllOf {
+		maps.Copy(properties, part.Properties)
+	}
+	maps.Copy(properties, schema.Properties)
+
+	return properties
+}
+
 // findComponentByPackageAndType finds the schema by the package and type.
 func findComponentByPackageAndType(fields []astra.Field, pkg string, typeName string) (astra.Field, bool) {
 	for _, field := range fields {
-- 
2.43.0


From e36da871b94479e48870f3f8601791e20c35536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 26/78] fix: document each header of a bound struct

They were documented as one parameter without a name.
---
 outputs/openapi/generate.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index d7147d9..7600f57 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -77,6 +77,30 @@ func Generate(filePath string) astra.ServiceFunction {
 					continue
 				}
 
+				// OpenAPI spec requires the use of a name, so bound headers must be spread
+				if requestHeader.IsBound {
+					field, found := findComponentByPackageAndType(s.Components, requestHeader.Field.Package, requestHeader.Field.Type)
+					if !found {
+						continue
+					}
+
+					component, bound := componentToSchema(s, field, astTraversal.HeaderBindingTag)
+					if !bound {
+						continue
+					}
+
+					for propertyName, propertySchema := range boundProperties(s, field, astTraversal.HeaderBindingTag, component) {
+						operation.Parameters = append(operation.Parameters, Parameter{
+							Name:     propertyName,
+							In:       "header",
+							Required: requestHeader.IsRequired,
+							Schema:   propertySchema,
+						})
+					}
+
+					continue
+				}
+
 				parameter := Parameter{
 					Name:     requestHeader.Name,
 					In:       "header",
-- 
2.43.0


From c88ce07a2d44dac16f0db9c650dbfb4025ab9c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 27/78] fix: leave bound structs out of the path parameters

They were documented as a parameter without a name.
---
 outputs/openapi/generate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 7600f57..46667e7 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -62,6 +62,11 @@ func Generate(filePath string) astra.ServiceFunction {
 					continue
 				}
 
+				// The names of the path parameters are in the path, a bound struct only reads them
+				if pathParam.IsBound {
+					continue
+				}
+
 				operation.Parameters = append(operation.Parameters, Parameter{
 					Name:     pathParam.Name,
 					In:       "path",
-- 
2.43.0


From ec46a986becc52b79b73320a495b6a78730ea081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:16 +0000
Subject: [PATCH 28/78] fix: compare every pair of packages for collision safe
 names

Some pairs were left out and the last pair decided for all of them, so two
components could share a name, or the package path was sliced out of range.
---
 outputs/openapi/components.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 1e8991d..2a4872f 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -51,7 +51,7 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 		// Iterate over every component and see if there is ever a case where the full package path doesn't match up.
 		sameUntil := 0
 		for i := 0; i < len(components)-1; i++ {
-			for j := i + 1; j < len(components)-i; j++ {
+			for j := i + 1; j < len(components); j++ {
 				// If the packages don't match, we need to find the first point where they don't match.
 				if components[i].Package != components[j].Package {
 					// Create a slice of the package path split by "/".
@@ -66,11 +66,13 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 					for k := 0; k < len(iComponentPackageSplit) && k < len(jComponentPackageSplit); k++ {
 						if iComponentPackageSplit[k] != jComponentPackageSplit[k] {
 							// We've found the first point where they don't match, set sameUntil to k and break out of the loop.
-							sameUntil = k
+							sameUntil = max(sameUntil, k)
 							break
+						} else if k == min(len(iComponentPackageSplit), len(jComponentPackageSplit))-1 {
+							// One of the packages is the end of the other one, so they don't match from there.
+							sameUntil = max(sameUntil, k+1)
 						}
 					}
-					break
 				}
 			}
 		}
@@ -90,7 +92,7 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 					// e.g. github.com/ls6-events/astra and github.com/different/astra would give us sameUntil = 1.
 					// and split into "ls6-events" and "different".
 
-					splitPackage = splitPackage[len(splitPackage)-(sameUntil+1):]
+					splitPackage = splitPackage[max(0, len(splitPackage)-(sameUntil+1)):]
 
 					if uniqueBindings {
 						// If there are unique bindings, we need to add the binding type to the collision safe name.
-- 
2.43.0


From 83e48568e299882a2a10cbc5f580a6cb32901ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:38 +0000
Subject: [PATCH 29/78] fix: give every component a name of its own

The ends of two different package paths can still be written the same way, and
names of a previous generation in the same process were kept.
---
 outputs/openapi/components.go | 40 +++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 2a4872f..2e0bcaf 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -33,6 +33,11 @@ func getPackageName(pkg string) string {
 // This needs to be run before any routes or components are generated.
 // As the makeComponentRefName function relies on the collisionSafeNames map.
 func makeCollisionSafeNamesFromComponents(components []astra.Field) {
+	// The names of a previous generation are not valid anymore.
+	clear(collisionSafeNames)
+
+	defer separateCollisionSafeNames(components)
+
 	// Group the components by package name.
 	packageNames := make(map[string][]astra.Field)
 	for _, component := range components {
@@ -115,6 +120,41 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 	}
 }
 
+// separateCollisionSafeNames gives the full package path to the components whose name is still taken by another one.
+// The name of a component is still shared by its own bindings, as long as they were given the same one.
+func separateCollisionSafeNames(components []astra.Field) {
+	owners := make(map[string]string)
+	for _, component := range components {
+		bindingTags, _ := astra.ExtractBindingTags(component.StructFields)
+		bindingTags = slices.Clone(bindingTags)
+		slices.Sort(bindingTags)
+
+		owner := collisionSafeKey(astTraversal.NoBindingTag, component.Name, component.Package)
+		renamed := make(map[string]string)
+		for _, bindingType := range bindingTags {
+			key := collisionSafeKey(bindingType, component.Name, component.Package)
+			name := collisionSafeNames[key]
+
+			if newName, exists := renamed[name]; exists {
+				collisionSafeNames[key] = newName
+				continue
+			}
+
+			newName := name
+			if taken, exists := owners[newName]; exists && taken != owner {
+				newName = strings.ReplaceAll(component.Package, "/", ".") + "." + name
+			}
+			for taken, exists := owners[newName]; exists && taken != owner; taken, exists = owners[newName] {
+				newName += "_"
+			}
+
+			owners[newName] = owner
+			renamed[name] = newName
+			collisionSafeNames[key] = newName
+		}
+	}
+}
+
 // makeComponentRef creates a reference to the component in the OpenAPI specification.
 func makeComponentRef(bindingType astTraversal.BindingTagType, name, pkg string) (string, bool) {
 	componentName, bound := makeComponentRefName(bindingType, name, pkg)
-- 
2.43.0


From df3eb099a74b36c76978a0cac2c1565eb0b02fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 30/78] fix: document a parameter once when it is read several
 times

---
 outputs/openapi/generate.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 46667e7..5322d30 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"path"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -268,6 +269,11 @@ func Generate(filePath string) astra.ServiceFunction {
 				return operation.Parameters[i].Name < operation.Parameters[j].Name
 			})
 
+			// A parameter is identified by its name and location
+			operation.Parameters = slices.CompactFunc(operation.Parameters, func(a, b Parameter) bool {
+				return a.Name == b.Name && a.In == b.In
+			})
+
 			var endpointPath Path
 			if _, ok := paths[endpoint.Path]; !ok {
 				endpointPath = Path{}
-- 
2.43.0


From 3adf80c15e9ac2017df0b449574178f92eec7f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 31/78] fix: start from an empty route when a route is parsed
 again

With two inputs every route is parsed twice, and its parameters were repeated.
---
 inputs/gin/parseRoute.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index fbd814b..32be043 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -69,6 +69,13 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return err
 	}
 
+	// Everything that is found in the handler is collected again, also when the route has already been parsed
+	baseRoute.QueryParams = make([]astra.Param, 0)
+	baseRoute.Body = make([]astra.BodyParam, 0)
+	baseRoute.ReturnTypes = make([]astra.ReturnType, 0)
+	baseRoute.RequestHeaders = nil
+	baseRoute.ResponseHeaders = nil
+
 	baseRoute.PathParams = utils.ExtractParamsFromPath(baseRoute.Path)
 	if len(baseRoute.PathParams) > 0 {
 		log.Debug().Interface("pathParams", baseRoute.PathParams).Msg("Found path params")
-- 
2.43.0


From b174180248179226ff2c5089e820d9adc084c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 32/78] fix: give every custom function a builder of its own

The parameters of a custom function that returned no route shifted those of the
functions that came after it.
---
 inputs/gin/parseFunction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 1a89423..1c4ccaf 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -73,7 +73,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 		var shouldBreak bool
 		for _, customFunc := range s.CustomFuncs {
 			var newRoute *astra.Route
-			newRoute, err = customFunc(ctxName, funcBuilder)
+			newRoute, err = customFunc(ctxName, astra.NewContextFuncBuilder(currRoute, callExpr))
 			if err != nil {
 				return false
 			}
-- 
2.43.0


From aceb4f37caba6d5f5a2c14aee1661608d396113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 33/78] fix: keep the route that is returned by a custom
 function

A new route was lost, only changes to the existing one were kept.
---
 inputs/gin/parseFunction.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 1c4ccaf..434a71e 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -78,7 +78,10 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 				return false
 			}
 			if newRoute != nil {
-				currRoute = newRoute
+				// The callers hold the current route, so it has to be updated in place
+				if newRoute != currRoute {
+					*currRoute = *newRoute
+				}
 				shouldBreak = true
 				break
 			}
-- 
2.43.0


From 212ab1dfbd0a40d7feb31685a46e484aabadd3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 34/78] fix: unescape the package path of a handler

The handlers of a package whose last path element has a dot were not found.
---
 utils/splitHandlerPath.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utils/splitHandlerPath.go b/utils/splitHandlerPath.go
index 04f8a75..dfeaa7d 100644
--- a/utils/splitHandlerPath.go
+++ b/utils/splitHandlerPath.go
@@ -1,6 +1,9 @@
 package utils
 
-import "strings"
+import (
+	"net/url"
+	"strings"
+)
 
 type HandlerPath struct {
 	PathParts    []string
@@ -14,6 +17,11 @@ func SplitHandlerPath(handlerPath string) HandlerPath {
 	// Create handler parts by splitting on dots from the last path part
 	handlerParts := strings.Split(pathParts[len(pathParts)-1], ".")
 
+	// The dots and special characters of the last element of the package path are escaped (e.g. yaml%2ev3.Handler)
+	if unescaped, err := url.PathUnescape(handlerParts[0]); err == nil {
+		handlerParts[0] = unescaped
+	}
+
 	// Remove the last dot-separated part from the path parts
 	pathParts = pathParts[:len(pathParts)-1]
 	pathParts = append(pathParts, handlerParts[0])
-- 
2.43.0


From 153dd9428a4ac43661cd322c4a7e08cebbfd2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 35/78] fix: create the parent directory of the temporary main
 package

The service can be parsed without Setup, as the CLI does.
---
 mainPackage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mainPackage.go b/mainPackage.go
index 7ca4555..27bdac6 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -24,7 +24,7 @@ func (s *Service) setupTempMainPackage() error {
 			return err
 		}
 	}
-	err := os.Mkdir(newMainPkgPath, 0755)
+	err := os.MkdirAll(newMainPkgPath, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From bd1acd2079afddbfef54a209b7f9d9b9d7e49269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 36/78] fix: find the module directive wherever it is in go.mod

It was expected to be the first line, without a comment or a carriage return.
---
 mainPackage.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mainPackage.go b/mainPackage.go
index 27bdac6..2fc1f1d 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -56,7 +56,13 @@ func (s *Service) setupTempMainPackage() error {
 				return err
 			}
 
-			pkgName = strings.Replace(strings.Split(string(fileData), "\n")[0], "module ", "", 1)
+			for _, line := range strings.Split(string(fileData), "\n") {
+				fields := strings.Fields(line)
+				if len(fields) > 1 && fields[0] == "module" {
+					pkgName = strings.Trim(fields[1], "\"`")
+					break
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From 70ce10ae2cbb59873a9394f2c3abd9c0a832c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 37/78] fix: only replace the package clause of the main
 package

The documentation and strings of the main package were changed too.
---
 mainPackage.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mainPackage.go b/mainPackage.go
index 2fc1f1d..58c46fa 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -3,6 +3,8 @@ package astra
 import (
 	"os"
 	"path"
+	"regexp"
+	"slices"
 	"strings"
 )
 
@@ -13,6 +15,9 @@ import (
 const mainPackageReplacement = "astramain"
 const mainPackageReplacementPath = astraDir + "/" + mainPackageReplacement
 
+// mainPackageClause is the package clause of a file in the main package.
+var mainPackageClause = regexp.MustCompile(`(?m)^package main`)
+
 // setupTempMainPackage copies the main package to a temporary directory and replaces the package name with a different name.
 func (s *Service) setupTempMainPackage() error {
 	var pkgName string
@@ -42,7 +47,9 @@ func (s *Service) setupTempMainPackage() error {
 				return err
 			}
 
-			fileData = []byte(strings.ReplaceAll(string(fileData), "package main", "package "+mainPackageReplacement))
+			if clause := mainPackageClause.FindIndex(fileData); clause != nil {
+				fileData = slices.Replace(fileData, clause[0], clause[1], []byte("package "+mainPackageReplacement)...)
+			}
 
 			newFilePath := path.Join(newMainPkgPath, file.Name())
 			err = os.WriteFile(newFilePath, fileData, 0644)
-- 
2.43.0


From de154b518231d3e45845be22539becf1b57fe389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 38/78] fix: remove what is left of a previous temporary output
 directory

After a generation that did not complete, every next one failed.
---
 dir.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dir.go b/dir.go
index 3f5870f..3f2da42 100644
--- a/dir.go
+++ b/dir.go
@@ -34,7 +34,13 @@ func (s *Service) setupAstraDir() error {
 func (s *Service) SetupTempOutputDir(dirPath string) (string, error) {
 	tempDir := path.Join(s.getAstraDirPath(), dirPath)
 
-	err := os.Mkdir(tempDir, 0755)
+	// It's left over when a previous generation didn't complete
+	err := os.RemoveAll(tempDir)
+	if err != nil {
+		return "", err
+	}
+
+	err = os.Mkdir(tempDir, 0755)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 9f928fed5cf27a26d6ac93023c3064c308552dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 39/78] fix: number the Azure functions of handlers that have
 the same name

The generation failed when a handler was used twice, or for two inline handlers.
---
 outputs/azureFunctions/generate.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/outputs/azureFunctions/generate.go b/outputs/azureFunctions/generate.go
index 024eb1c..9c95008 100644
--- a/outputs/azureFunctions/generate.go
+++ b/outputs/azureFunctions/generate.go
@@ -2,6 +2,7 @@ package azureFunctions
 
 import (
 	"encoding/json"
+	"fmt"
 	"os"
 	"path"
 	"strings"
@@ -34,10 +35,23 @@ func Generate(directoryPath string) astra.ServiceFunction {
 			return err
 		}
 
+		funcNames := make(map[string]int)
 		for _, route := range s.Routes {
 			splitHandler := strings.Split(route.Handler, ".")
 			funcName := splitHandler[len(splitHandler)-1]
 
+			// Several routes can have handlers of the same name
+			funcNames[funcName]++
+			for count := funcNames[funcName]; count > 1; count++ {
+				numberedName := fmt.Sprintf("%s_%d", funcName, count)
+				if funcNames[numberedName] == 0 {
+					funcNames[funcName] = count
+					funcNames[numberedName]++
+					funcName = numberedName
+					break
+				}
+			}
+
 			functionDirectoryPath := path.Join(tempOutputDirectoryPath, funcName)
 			filePath := path.Join(functionDirectoryPath, outputFile)
 
-- 
2.43.0


From dbd02afd0a7d0a8a0c57d0bfb236503d454b7ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 40/78] fix: replace whole parameters in the routes of Azure
 functions

A parameter was replaced inside the constraint of another one.
---
 outputs/azureFunctions/convertRoute.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/outputs/azureFunctions/convertRoute.go b/outputs/azureFunctions/convertRoute.go
index c34d171..58c8373 100644
--- a/outputs/azureFunctions/convertRoute.go
+++ b/outputs/azureFunctions/convertRoute.go
@@ -1,9 +1,8 @@
 package azureFunctions
 
 import (
-	"strings"
-
 	"github.com/ls6-events/astra"
+	"github.com/ls6-events/astra/utils"
 )
 
 // Adapted from https://learn.microsoft.com/en-us/aspnet/web-api/overview/web-api-routing-and-actions/attribute-routing-in-web-api-2#route-constraints
@@ -26,7 +25,7 @@ var acceptedTypeMap = map[string]string{
 }
 
 func convertRoute(route astra.Route) string {
-	routeString := route.Path
+	routeParams := make(map[string]string)
 
 	for _, pathParams := range route.PathParams {
 		if azureType, ok := acceptedTypeMap[pathParams.Field.Type]; ok {
@@ -35,12 +34,18 @@ func convertRoute(route astra.Route) string {
 			}
 
 			if pathParams.IsRequired {
-				routeString = strings.Replace(routeString, ":"+pathParams.Name, "{"+pathParams.Name+":"+azureType+"}", 1)
+				routeParams[":"+pathParams.Name] = "{" + pathParams.Name + ":" + azureType + "}"
 			} else {
-				routeString = strings.Replace(routeString, "*"+pathParams.Name, "{"+pathParams.Name+":"+azureType+"?}", 1)
+				routeParams["*"+pathParams.Name] = "{" + pathParams.Name + ":" + azureType + "?}"
 			}
 		}
 	}
 
-	return routeString
+	return utils.MapPathParams(route.Path, func(param string) string {
+		if routeParam, ok := routeParams[param]; ok {
+			return routeParam
+		}
+
+		return param
+	})
 }
-- 
2.43.0


From ef47af015b5325e9e9ad255c966f512b4bad4a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 41/78] fix: never leave a part of a cache behind

The beginning of a YAML cache can be loaded like a complete one.
---
 cache.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index ed506dc..de59889 100644
--- a/cache.go
+++ b/cache.go
@@ -34,7 +34,8 @@ func (s *Service) Cache() error {
 		}
 	}
 
-	f, err := os.Create(cachePath)
+	// The cache is complete once it has its own name
+	f, err := os.Create(cachePath + ".tmp")
 	if err != nil {
 		return err
 	}
@@ -54,6 +55,14 @@ func (s *Service) Cache() error {
 		return err
 	}
 
+	if err := f.Close(); err != nil {
+		return err
+	}
+
+	if err := os.Rename(cachePath+".tmp", cachePath); err != nil {
+		return err
+	}
+
 	s.Log.Debug().Msg("Cached service")
 	return nil
 }
-- 
2.43.0


From 48927af6ab2ea432c866d20ef615d30364285498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 42/78] fix: keep the fields of an embedded struct whose type
 is not exported

---
 astTraversal/type.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index cc34b09..5dc5f11 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -221,6 +221,15 @@ func (t *TypeTraverser) Result() (Result, error) {
 
 			var bindingTag BindingTagMap
 			var validationTags ValidationTagMap
+			// The exported fields of an embedded struct are promoted, even when its type is not exported
+			if isEmbedded && !isExported {
+				embeddedType := f.Type()
+				if pointer, ok := embeddedType.(*types.Pointer); ok {
+					embeddedType = pointer.Elem()
+				}
+				_, isExported = embeddedType.Underlying().(*types.Struct)
+			}
+
 			if isExported {
 				bindingTag, validationTags = ParseStructTag(name, n.Tag(i))
 			} else {
-- 
2.43.0


From ad5108acd63c12cd38f5fcc5c472dc462adb3773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 43/78] fix: treat an embedded field with a tag name as a field

Its fields were documented next to those of the struct, or despite being hidden.
---
 outputs/openapi/components.go | 10 +++++++++-
 outputs/openapi/schema.go     |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 2e0bcaf..4039122 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -215,6 +215,14 @@ func hasPartialBindings(fields map[string]astra.Field, bindingTags []astTraversa
 	return false
 }
 
+// isPromoted is whether the fields of an embedded field are fields of the struct itself.
+// An embedded field with a name of its own is a field like the others, and it can be hidden too.
+func isPromoted(fieldName string, field astra.Field, bindingType astTraversal.BindingTagType) bool {
+	binding := field.StructFieldBindingTags[bindingType]
+
+	return field.IsEmbedded && !binding.NotShown && (binding.Name == "" || binding.Name == fieldName)
+}
+
 // componentToSchema converts a component to a schema.
 func componentToSchema(service *astra.Service, component astra.Field, bindingType astTraversal.BindingTagType) (schema Schema, bound bool) {
 	if _, ok := service.GetTypeMapping(component.Name, component.Package); ok {
@@ -238,7 +246,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
-			if field.IsEmbedded {
+			if isPromoted(fieldName, field, bindingType) {
 				componentRef, componentBound := makeComponentRef(bindingType, field.Type, field.Package)
 				if componentBound {
 					embeddedProperties = append(embeddedProperties, Schema{
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index daacaab..9679f6a 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -147,7 +147,7 @@ func boundProperties(s *astra.Service, component astra.Field, bindingType astTra
 
 	for _, fieldName := range fieldNames {
 		field := component.StructFields[fieldName]
-		if !field.IsEmbedded || slices.Contains(parents, field.Package+"."+field.Type) {
+		if !isPromoted(fieldName, field, bindingType) || slices.Contains(parents, field.Package+"."+field.Type) {
 			continue
 		}
 
-- 
2.43.0


From 082dcd07f31a9f06f57e1bae0f23c0268567eb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:25 +0000
Subject: [PATCH 44/78] fix: the value of a variable that is not the first name
 of its declaration is found

---
 astTraversal/packageNode.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index 1266453..4150a0f 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -184,6 +184,23 @@ func (p *PackageNode) ASTAtPos(pos token.Pos) (ast.Node, error) {
 					return false
 				}
 
+				// The names after the first one of a declaration are not at the position of the declaration.
+				var names []ast.Expr
+				switch decl := n.(type) {
+				case *ast.ValueSpec:
+					for _, name := range decl.Names {
+						names = append(names, name)
+					}
+				case *ast.AssignStmt:
+					names = decl.Lhs
+				}
+				for _, name := range names {
+					if name.Pos() == pos {
+						result = n
+						return false
+					}
+				}
+
 				return true
 			})
 
-- 
2.43.0


From 4e28e30f3312979e59ebdda5d2e908344b486cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:25 +0000
Subject: [PATCH 45/78] fix: the type of a conversion and of other expressions
 is taken from the type checker

---
 astTraversal/expression.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index ff6ea0d..2a95362 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -163,6 +163,20 @@ func (e *ExpressionTraverser) Value() (string, error) {
 	return "", errors.New("value not retrievable")
 }
 
+// conversionType returns the type that a conversion, such as []byte("text"), converts to.
+func (e *ExpressionTraverser) conversionType(callExpr *ast.CallExpr) (types.Type, bool) {
+	if e.File == nil || e.File.Package == nil || e.File.Package.Package == nil || e.File.Package.Package.TypesInfo == nil {
+		return nil, false
+	}
+
+	fun := e.File.Package.Package.TypesInfo.Types[callExpr.Fun]
+	if !fun.IsType() {
+		return nil, false
+	}
+
+	return fun.Type, true
+}
+
 func (e *ExpressionTraverser) Type() (types.Type, error) {
 	switch n := e.Node.(type) {
 	case *ast.StarExpr:
@@ -190,6 +204,10 @@ func (e *ExpressionTraverser) Type() (types.Type, error) {
 	case *ast.BasicLit:
 		return e.File.Package.FindTypeForExpr(n)
 	case *ast.CallExpr:
+		if resultType, ok := e.conversionType(n); ok {
+			return resultType, nil
+		}
+
 		result, err := e.BuiltInFunctions(n)
 		if err != nil {
 			return nil, err
@@ -207,5 +225,11 @@ func (e *ExpressionTraverser) Type() (types.Type, error) {
 		return callExpr.ReturnType(e.ReturnNum)
 	}
 
+	if e.File != nil && e.File.Package != nil && e.Node != nil {
+		if exprType, err := e.File.Package.FindTypeForExpr(e.Node); err == nil {
+			return exprType, nil
+		}
+	}
+
 	return nil, errors.New("unsupported expression type")
 }
-- 
2.43.0


From e893bc7f730aaddedf38f70f46d507f4030c791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:37 +0000
Subject: [PATCH 46/78] fix: give a component that refers to different bindings
 one component for each of them

---
 outputs/openapi/components.go | 75 +++++++++++++++++++++++++++++++++--
 1 file changed, 72 insertions(+), 3 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 4039122..9586924 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -38,6 +38,8 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 
 	defer separateCollisionSafeNames(components)
 
+	dependent := bindingDependentComponents(components)
+
 	// Group the components by package name.
 	packageNames := make(map[string][]astra.Field)
 	for _, component := range components {
@@ -84,8 +86,7 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 
 		// Iterate over every component and create a collision safe name.
 		for _, component := range components {
-			bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
-			uniqueBindings = uniqueBindings || hasPartialBindings(component.StructFields, bindingTags)
+			bindingTags, uniqueBindings := componentBindings(component, dependent)
 			for _, bindingType := range bindingTags {
 				// If sameUntil is greater than 0, we need to remove the package path up to the point where they first don't match.
 				if sameUntil > 0 {
@@ -124,8 +125,9 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 // The name of a component is still shared by its own bindings, as long as they were given the same one.
 func separateCollisionSafeNames(components []astra.Field) {
 	owners := make(map[string]string)
+	dependent := bindingDependentComponents(components)
 	for _, component := range components {
-		bindingTags, _ := astra.ExtractBindingTags(component.StructFields)
+		bindingTags, _ := componentBindings(component, dependent)
 		bindingTags = slices.Clone(bindingTags)
 		slices.Sort(bindingTags)
 
@@ -152,6 +154,12 @@ func separateCollisionSafeNames(components []astra.Field) {
 			renamed[name] = newName
 			collisionSafeNames[key] = newName
 		}
+
+		// Without a binding, the JSON one of a component without tags is used
+		declared, _ := astra.ExtractBindingTags(component.StructFields)
+		if _, exists := collisionSafeNames[owner]; !exists && slices.Contains(declared, astTraversal.NoBindingTag) {
+			collisionSafeNames[owner] = collisionSafeNames[collisionSafeKey(astTraversal.JSONBindingTag, component.Name, component.Package)]
+		}
 	}
 }
 
@@ -215,6 +223,67 @@ func hasPartialBindings(fields map[string]astra.Field, bindingTags []astTraversa
 	return false
 }
 
+// bindingDependentComponents finds the components that are not the same for every binding.
+// Either because of their own tags, or because they refer to a component that is not.
+func bindingDependentComponents(components []astra.Field) map[string]bool {
+	dependent := make(map[string]bool)
+	for _, component := range components {
+		bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
+		if uniqueBindings || hasPartialBindings(component.StructFields, bindingTags) {
+			dependent[collisionSafeKey(astTraversal.NoBindingTag, component.Name, component.Package)] = true
+		}
+	}
+
+	for changed := len(dependent) > 0; changed; {
+		changed = false
+		for _, component := range components {
+			key := collisionSafeKey(astTraversal.NoBindingTag, component.Name, component.Package)
+			if !dependent[key] && refersTo(component, dependent) {
+				dependent[key] = true
+				changed = true
+			}
+		}
+	}
+
+	return dependent
+}
+
+// refersTo is whether a field or one of its struct fields refers to one of the components.
+func refersTo(field astra.Field, keys map[string]bool) bool {
+	for _, name := range []string{field.Type, field.SliceType, field.ArrayType, field.MapValueType} {
+		if name != "" && !astra.IsAcceptedType(name) && keys[collisionSafeKey(astTraversal.NoBindingTag, name, field.Package)] {
+			return true
+		}
+	}
+
+	for _, structField := range field.StructFields {
+		if refersTo(structField, keys) {
+			return true
+		}
+	}
+
+	return false
+}
+
+// componentBindings returns the bindings that a component is named for, and whether their names have to be different.
+func componentBindings(component astra.Field, dependent map[string]bool) ([]astTraversal.BindingTagType, bool) {
+	bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
+	if uniqueBindings || hasPartialBindings(component.StructFields, bindingTags) {
+		return bindingTags, true
+	}
+
+	if !dependent[collisionSafeKey(astTraversal.NoBindingTag, component.Name, component.Package)] {
+		return bindingTags, false
+	}
+
+	// The component has no tags that make a difference itself, so every binding has one of its own.
+	if slices.Contains(bindingTags, astTraversal.NoBindingTag) {
+		bindingTags = astTraversal.BindingTags
+	}
+
+	return bindingTags, true
+}
+
 // isPromoted is whether the fields of an embedded field are fields of the struct itself.
 // An embedded field with a name of its own is a field like the others, and it can be hidden too.
 func isPromoted(fieldName string, field astra.Field, bindingType astTraversal.BindingTagType) bool {
-- 
2.43.0


From b34ade2bf5d564fcf6739b8e15778fe30a6df568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:37 +0000
Subject: [PATCH 47/78] fix: keep a named slice, array or map in its own
 package when its values are of another one

---
 astTraversal/result.go        |  3 +++
 astTraversal/type.go          |  6 ++++++
 clean.go                      |  3 +++
 outputs/openapi/components.go | 17 +++++++++++++----
 types.go                      |  7 +++++--
 utils.go                      |  4 ++++
 6 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/astTraversal/result.go b/astTraversal/result.go
index 7c0b8cc..2976d8d 100644
--- a/astTraversal/result.go
+++ b/astTraversal/result.go
@@ -9,6 +9,9 @@ type Result struct {
 	// It's used as the package of a Slice, Array or Map Value
 	Package *PackageNode
 
+	// ValuePackage is the package of the value of a named Slice, Array or Map, when it's not the package of the type
+	ValuePackage *PackageNode
+
 	// Name is the name of the result if it's a types.Named type
 	Name string
 
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 5dc5f11..bf2fcb6 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -152,6 +152,12 @@ func (t *TypeTraverser) Result() (Result, error) {
 					return Result{}, err
 				}
 
+				// The package of a slice, array or map is the one of its values, but the type has its own
+				if namedUnderlyingResult.Package != pkg {
+					namedUnderlyingResult.ValuePackage = namedUnderlyingResult.Package
+					namedUnderlyingResult.Package = pkg
+				}
+
 				namedUnderlyingResult.Doc, err = t.Doc()
 				if err != nil {
 					return Result{}, err
diff --git a/clean.go b/clean.go
index ac149bf..c9ac043 100644
--- a/clean.go
+++ b/clean.go
@@ -58,6 +58,9 @@ func (s *Service) cleanField(f Field, mainPkg string) Field {
 	if f.Package == mainPkg {
 		f.Package = "main"
 	}
+	if f.ValuePackage == mainPkg {
+		f.ValuePackage = "main"
+	}
 	if f.MapKeyPackage == mainPkg {
 		f.MapKeyPackage = "main"
 	}
diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 9586924..9788070 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -251,7 +251,7 @@ func bindingDependentComponents(components []astra.Field) map[string]bool {
 // refersTo is whether a field or one of its struct fields refers to one of the components.
 func refersTo(field astra.Field, keys map[string]bool) bool {
 	for _, name := range []string{field.Type, field.SliceType, field.ArrayType, field.MapValueType} {
-		if name != "" && !astra.IsAcceptedType(name) && keys[collisionSafeKey(astTraversal.NoBindingTag, name, field.Package)] {
+		if name != "" && !astra.IsAcceptedType(name) && keys[collisionSafeKey(astTraversal.NoBindingTag, name, valuePackage(field))] {
 			return true
 		}
 	}
@@ -284,6 +284,15 @@ func componentBindings(component astra.Field, dependent map[string]bool) ([]astT
 	return bindingTags, true
 }
 
+// valuePackage returns the package of the values of a slice, array or map.
+func valuePackage(field astra.Field) string {
+	if field.ValuePackage != "" {
+		return field.ValuePackage
+	}
+
+	return field.Package
+}
+
 // isPromoted is whether the fields of an embedded field are fields of the struct itself.
 // An embedded field with a name of its own is a field like the others, and it can be hidden too.
 func isPromoted(fieldName string, field astra.Field, bindingType astTraversal.BindingTagType) bool {
@@ -359,7 +368,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		itemSchema := mapPredefinedTypeFormat(component.SliceType)
 
 		if itemSchema.Type == "" && !astra.IsAcceptedType(component.SliceType) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.SliceType, component.Package)
+			componentRef, componentBound := makeComponentRef(bindingType, component.SliceType, valuePackage(component))
 			if componentBound {
 				itemSchema = Schema{
 					Ref: componentRef,
@@ -375,7 +384,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		itemSchema := mapPredefinedTypeFormat(component.ArrayType)
 
 		if itemSchema.Type == "" && !astra.IsAcceptedType(component.ArrayType) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.ArrayType, component.Package)
+			componentRef, componentBound := makeComponentRef(bindingType, component.ArrayType, valuePackage(component))
 			if componentBound {
 				itemSchema = Schema{
 					Ref: componentRef,
@@ -392,7 +401,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		additionalProperties := mapPredefinedTypeFormat(component.MapValueType)
 
 		if additionalProperties.Type == "" && !astra.IsAcceptedType(component.MapValueType) {
-			componentRef, ok := makeComponentRef(bindingType, component.MapValueType, component.Package)
+			componentRef, ok := makeComponentRef(bindingType, component.MapValueType, valuePackage(component))
 			if ok {
 				additionalProperties.Ref = componentRef
 			}
diff --git a/types.go b/types.go
index 48deddd..f9b36cc 100644
--- a/types.go
+++ b/types.go
@@ -69,8 +69,11 @@ type Processable struct {
 // If the field is a struct, it contains the fields of the struct.
 type Field struct {
 	Package string `json:"package,omitempty" yaml:"package,omitempty"`
-	Type    string `json:"type,omitempty" yaml:"type,omitempty"`
-	Name    string `json:"name,omitempty" yaml:"name,omitempty"`
+	// ValuePackage is the package of the values of a named slice, array or map, when it's not the package of the type.
+	ValuePackage string `json:"valuePackage,omitempty" yaml:"valuePackage,omitempty"`
+
+	Type string `json:"type,omitempty" yaml:"type,omitempty"`
+	Name string `json:"name,omitempty" yaml:"name,omitempty"`
 
 	EnumValues []any `json:"enumValues,omitempty" yaml:"enumValues,omitempty"`
 
diff --git a/utils.go b/utils.go
index adaaa9b..14a9c46 100644
--- a/utils.go
+++ b/utils.go
@@ -39,6 +39,10 @@ func ParseResultToField(result astTraversal.Result) Field {
 		field.Package = result.Package.Path()
 	}
 
+	if result.ValuePackage != nil {
+		field.ValuePackage = result.ValuePackage.Path()
+	}
+
 	// If the map key type is populated and not a primitive type, we need to get the package path for the map key.
 	if result.MapKeyType != "" && !IsAcceptedType(result.MapKeyType) {
 		field.MapKeyPackage = result.MapKeyPackage.Path()
-- 
2.43.0


From 7d5f50986f4992bd9a2079778dfdd6df23b4de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:32 +0000
Subject: [PATCH 48/78] fix: a form that is bound and read by name, or bound
 twice, keeps all of its fields

---
 outputs/openapi/generate.go |  5 +++++
 outputs/openapi/schema.go   | 17 +++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 5322d30..b6ea6ad 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -211,6 +211,11 @@ func Generate(filePath string) astra.ServiceFunction {
 					}
 				}
 
+				// A form that is read in several ways has the fields of all of them
+				if previous, exists := operation.RequestBody.Content[bodyParam.ContentType]; exists && bindingType == astTraversal.FormBindingTag {
+					mediaType.Schema = joinSchemas(previous.Schema, mediaType.Schema)
+				}
+
 				operation.RequestBody.Content[bodyParam.ContentType] = mediaType
 			}
 
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 9679f6a..663e6f8 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -2,6 +2,7 @@ package openapi
 
 import (
 	"maps"
+	"reflect"
 	"slices"
 
 	"github.com/ls6-events/astra"
@@ -170,6 +171,22 @@ func boundProperties(s *astra.Service, component astra.Field, bindingType astTra
 	return properties
 }
 
+// joinSchemas returns a schema that has the properties of both schemas.
+func joinSchemas(first Schema, second Schema) Schema {
+	parts := first.AllOf
+	if len(parts) == 0 {
+		parts = []Schema{first}
+	}
+
+	for _, part := range parts {
+		if reflect.DeepEqual(part, second) {
+			return first
+		}
+	}
+
+	return Schema{AllOf: append(slices.Clone(parts), second)}
+}
+
 // findComponentByPackageAndType finds the schema by the package and type.
 func findComponentByPackageAndType(fields []astra.Field, pkg string, typeName string) (astra.Field, bool) {
 	for _, field := range fields {
-- 
2.43.0


From 4820a00089bf5bc39739665cf51566d4c986ddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:58 +0000
Subject: [PATCH 49/78] fix: follow the context into called function literals
 and instantiated generic functions

---
 astTraversal/callExpression.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/astTraversal/callExpression.go b/astTraversal/callExpression.go
index fb7dc06..8c8f580 100644
--- a/astTraversal/callExpression.go
+++ b/astTraversal/callExpression.go
@@ -25,7 +25,17 @@ func (t *BaseTraverser) CallExpression(node ast.Node) (*CallExpressionTraverser,
 }
 
 func (c *CallExpressionTraverser) Function() (*FunctionTraverser, error) {
-	decl, err := c.Traverser.FindDeclarationForNode(c.Node.Fun)
+	fun := c.Node.Fun
+	switch nodeFun := fun.(type) {
+	case *ast.FuncLit: // Called where it is defined.
+		return c.Traverser.Function(nodeFun)
+	case *ast.IndexExpr: // Instantiated with a type.
+		fun = nodeFun.X
+	case *ast.IndexListExpr: // Instantiated with several types.
+		fun = nodeFun.X
+	}
+
+	decl, err := c.Traverser.FindDeclarationForNode(fun)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a6b4d269702e57df5de6020ae71042039a32a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:14 +0000
Subject: [PATCH 50/78] fix: find function literals by their file and line,
 also when the function that makes them is inlined

---
 inputs/gin/parseRoute.go | 118 ++++++++++++++++++++++++++++-----------
 1 file changed, 85 insertions(+), 33 deletions(-)

diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index 32be043..743ae61 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -4,14 +4,21 @@ import (
 	"fmt"
 	"go/ast"
 	"path"
+	"path/filepath"
+	"regexp"
+	"strings"
 
 	"github.com/ls6-events/astra"
 	"github.com/ls6-events/astra/astTraversal"
 	"github.com/ls6-events/astra/utils"
 
 	"github.com/iancoleman/strcase"
+	"golang.org/x/tools/go/packages"
 )
 
+// literalName is the last part of the handler name of a function literal.
+var literalName = regexp.MustCompile(`^(func)?\d+$`)
+
 // parseRoute parses a route from a gin routes.
 // It will populate the route with the handler function.
 // createRoute must be called before this.
@@ -55,6 +62,20 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return err
 	}
 
+	// A function literal stays in its file, but it is named after the caller of the function that makes it when that is inlined
+	isLiteral := len(handler.HandlerParts) > 1 && literalName.MatchString(handler.HandlerParts[len(handler.HandlerParts)-1])
+	if isLiteral && !containsFile(pkgNode, baseRoute.File) {
+		literalPkgPath, err := findPackageOfFile(s, baseRoute.File)
+		if err == nil && literalPkgPath != pkgPath {
+			pkgNode = traverser.Packages.AddPackage(literalPkgPath)
+			_, err = traverser.Packages.Get(pkgNode)
+			if err != nil {
+				log.Error().Err(err).Msg("Failed to get package of function literal")
+				return err
+			}
+		}
+	}
+
 	for _, file := range pkgNode.Files {
 		if path.Base(file.FileName) == path.Base(baseRoute.File) {
 			log.Debug().Str("fileName", file.FileName).Msg("Found file")
@@ -88,51 +109,45 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 			return true
 		}
 
-		funcDecl, ok := n.(*ast.FuncDecl)
+		if isLiteral {
+			funcLit, ok := n.(*ast.FuncLit)
 
-		if ok && funcDecl.Name.Name == funcName {
-			log.Debug().Str("funcName", funcName).Msg("Found handler function")
+			if ok {
+				inlineStartPos := traverser.ActiveFile().Package.Package.Fset.Position(funcLit.Pos())
 
-			startPos := traverser.ActiveFile().Package.Package.Fset.Position(funcDecl.Pos())
+				if baseRoute.LineNo == inlineStartPos.Line {
+					log.Debug().Str("funcName", funcName).Msg("Found inline handler function")
 
-			if baseRoute.LineNo != startPos.Line {
-				// This means that the function is set inline in the route definition
-				log.Debug().Str("funcName", funcName).Msg("Function is inline")
-
-				ast.Inspect(funcDecl, func(n ast.Node) bool {
-					if n == nil {
-						return true
+					function, err := traverser.Function(funcLit)
+					if err != nil {
+						log.Error().Err(err).Msg("Failed to get function")
+						return false
 					}
 
-					funcLit, ok := n.(*ast.FuncLit)
-
-					if ok {
-						inlineStartPos := traverser.ActiveFile().Package.Package.Fset.Position(funcLit.Pos())
+					err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
+					if err != nil {
+						log.Error().Err(err).Msg("Failed to parse inline function")
+						return false
+					}
 
-						if baseRoute.LineNo == inlineStartPos.Line {
-							log.Debug().Str("funcName", funcName).Msg("Found inline handler function")
+					log.Debug().Str("funcName", funcName).Interface("route", *baseRoute).Msg("Adding route")
 
-							function, err := traverser.Function(funcLit)
-							if err != nil {
-								log.Error().Err(err).Msg("Failed to get function")
-								return false
-							}
+					return false
+				}
+			}
 
-							err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
-							if err != nil {
-								log.Error().Err(err).Msg("Failed to parse inline function")
-								return false
-							}
+			return true
+		}
 
-							log.Debug().Str("funcName", funcName).Interface("route", *baseRoute).Msg("Adding route")
+		funcDecl, ok := n.(*ast.FuncDecl)
 
-							return false
-						}
-					}
+		if ok && funcDecl.Name.Name == funcName {
+			log.Debug().Str("funcName", funcName).Msg("Found handler function")
 
-					return true
-				})
+			startPos := traverser.ActiveFile().Package.Package.Fset.Position(funcDecl.Pos())
 
+			// It's another function of the same name, such as a method
+			if baseRoute.LineNo != startPos.Line {
 				return false
 			}
 
@@ -166,3 +181,40 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 
 	return nil
 }
+
+// containsFile checks whether a file, relative to the directory of the process, is one of the files of a package.
+func containsFile(pkgNode *astTraversal.PackageNode, fileName string) bool {
+	fileName = filepath.ToSlash(fileName)
+	for strings.HasPrefix(fileName, "../") {
+		fileName = strings.TrimPrefix(fileName, "../")
+	}
+
+	for _, file := range pkgNode.Files {
+		if strings.HasSuffix(filepath.ToSlash(file.FileName), "/"+fileName) {
+			return true
+		}
+	}
+
+	return false
+}
+
+// findPackageOfFile finds the path of the package that a file is in.
+func findPackageOfFile(s *astra.Service, fileName string) (string, error) {
+	pkgs, err := packages.Load(&packages.Config{
+		Mode: packages.NeedName | packages.NeedFiles,
+		Dir:  s.WorkDir,
+	}, "file="+filepath.Join(s.WorkDir, fileName))
+	if err != nil {
+		return "", err
+	}
+
+	if len(pkgs) == 0 || pkgs[0].PkgPath == "" {
+		return "", fmt.Errorf("could not find package of file: %s", fileName)
+	}
+
+	if pkgs[0].Name == "main" {
+		return "main", nil
+	}
+
+	return pkgs[0].PkgPath, nil
+}
-- 
2.43.0


From 5490478d50507ecb8d303294cd1267649873c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:00 +0000
Subject: [PATCH 51/78] fix: keep the binding apart from the package and name
 in the keys of component names

---
 outputs/openapi/components.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 9788070..9196fc9 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -16,7 +16,8 @@ func collisionSafeKey(bindingType astTraversal.BindingTagType, name, pkg string)
 	var keyComponents []string
 
 	if bindingType != astTraversal.NoBindingTag {
-		keyComponents = []string{pkg, string(bindingType), name}
+		// The binding isn't part of the path, which can have an element that is called like one
+		keyComponents = []string{pkg, name + "#" + string(bindingType)}
 	} else {
 		keyComponents = []string{pkg, name}
 	}
-- 
2.43.0


From 88263b760155231150c946e31aed41e344650646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:31 +0000
Subject: [PATCH 52/78] fix: restore the numbers of enum values as they were
 when a JSON cache is loaded

---
 types.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index f9b36cc..3836aec 100644
--- a/types.go
+++ b/types.go
@@ -1,6 +1,13 @@
 package astra
 
-import "github.com/ls6-events/astra/astTraversal"
+import (
+	"bytes"
+	"encoding/json"
+	"strconv"
+	"strings"
+
+	"github.com/ls6-events/astra/astTraversal"
+)
 
 // These are types that are used throughout the astra package.
 
@@ -95,3 +102,31 @@ type Field struct {
 
 	Doc string `json:"doc,omitempty" yaml:"doc,omitempty"`
 }
+
+// UnmarshalJSON keeps the numbers of the enum values as they are, JSON itself would turn all of them into floats.
+func (f *Field) UnmarshalJSON(data []byte) error {
+	type plainField Field
+
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	if err := decoder.Decode((*plainField)(f)); err != nil {
+		return err
+	}
+
+	for i, value := range f.EnumValues {
+		number, ok := value.(json.Number)
+		if !ok {
+			continue
+		}
+
+		if integer, err := number.Int64(); err == nil && !strings.HasPrefix(f.Type, "float") {
+			f.EnumValues[i] = integer
+		} else if unsigned, err := strconv.ParseUint(number.String(), 10, 64); err == nil && !strings.HasPrefix(f.Type, "float") {
+			f.EnumValues[i] = unsigned
+		} else if f.EnumValues[i], err = number.Float64(); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
-- 
2.43.0


From 8a86d81901f5da374c429bd3a17169fc345736d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:43 +0000
Subject: [PATCH 53/78] fix: write a schema without constraints in YAML like in
 JSON

---
 outputs/openapi/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/outputs/openapi/types.go b/outputs/openapi/types.go
index 3ec78d1..3aea5a7 100644
--- a/outputs/openapi/types.go
+++ b/outputs/openapi/types.go
@@ -8,7 +8,7 @@ type OpenAPISchema struct {
 	Servers           []Server      `json:"servers,omitempty" yaml:"servers,omitempty"`
 	Paths             Paths         `json:"paths,omitempty" yaml:"paths,omitempty"`
 	Webhooks          Paths         `json:"webhooks,omitempty" yaml:"webhooks,omitempty"`
-	Components        Components    `json:"components,omitempty" yaml:"components,omitempty"`
+	Components        Components    `json:"components,omitempty" yaml:"components"`
 	Security          []Security    `json:"security,omitempty" yaml:"security,omitempty"`
 	Tags              []Tag         `json:"tags,omitempty" yaml:"tags,omitempty"`
 	ExternalDocs      *ExternalDocs `json:"externalDocs,omitempty" yaml:"externalDocs,omitempty"`
@@ -90,7 +90,7 @@ type Parameter struct {
 	AllowEmpty  bool   `json:"allowEmptyValue,omitempty" yaml:"allowEmptyValue,omitempty"`
 	Style       string `json:"style,omitempty" yaml:"style,omitempty"`
 	Explode     bool   `json:"explode,omitempty" yaml:"explode,omitempty"`
-	Schema      Schema `json:"schema,omitempty" yaml:"schema,omitempty"`
+	Schema      Schema `json:"schema,omitempty" yaml:"schema"`
 }
 
 // RequestBody is the OpenAPI request body.
@@ -103,7 +103,7 @@ type RequestBody struct {
 
 // MediaType is the OpenAPI media type.
 type MediaType struct {
-	Schema   Schema              `json:"schema,omitempty" yaml:"schema,omitempty"`
+	Schema   Schema              `json:"schema,omitempty" yaml:"schema"`
 	Encoding map[string]Encoding `json:"encoding,omitempty" yaml:"encoding,omitempty"`
 }
 
@@ -120,7 +120,7 @@ type Header struct {
 	Required    bool   `json:"required,omitempty" yaml:"required,omitempty"`
 	Deprecated  bool   `json:"deprecated,omitempty" yaml:"deprecated,omitempty"`
 	AllowEmpty  bool   `json:"allowEmptyValue,omitempty" yaml:"allowEmptyValue,omitempty"`
-	Schema      Schema `json:"schema,omitempty" yaml:"schema,omitempty"`
+	Schema      Schema `json:"schema,omitempty" yaml:"schema"`
 }
 
 // Responses is the OpenAPI responses.
-- 
2.43.0


From 91ded33a1bac70909909a4e2ae92675a9217e197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:51 +0000
Subject: [PATCH 54/78] fix: refuse an output directory that contains the
 working directory

---
 dir.go    | 33 ++++++++++++++++++++++++++++++++-
 errors.go |  1 +
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/dir.go b/dir.go
index 3f2da42..22e8483 100644
--- a/dir.go
+++ b/dir.go
@@ -5,6 +5,8 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"path/filepath"
+	"strings"
 )
 
 // This creates a new directory in the current working directory called .astra.
@@ -52,7 +54,16 @@ func (s *Service) MoveTempOutputDir(dirPath, outputDir string) error {
 	sourcePath := path.Join(s.getAstraDirPath(), dirPath)
 	destinationPath := path.Join(s.WorkDir, outputDir)
 
-	_, err := os.Stat(destinationPath)
+	// The destination is replaced as a whole, so it must not be a directory that has the sources in it
+	contains, err := containsPath(destinationPath, s.getAstraDirPath())
+	if err != nil {
+		return err
+	}
+	if contains {
+		return ErrOutputDirectoryPathInvalid
+	}
+
+	_, err = os.Stat(destinationPath)
 	if !errors.Is(err, fs.ErrNotExist) {
 		err := os.RemoveAll(destinationPath)
 		if err != nil {
@@ -68,6 +79,26 @@ func (s *Service) MoveTempOutputDir(dirPath, outputDir string) error {
 	return nil
 }
 
+// containsPath is whether the path is the directory or inside it.
+func containsPath(dirPath, innerPath string) (bool, error) {
+	absDirPath, err := filepath.Abs(dirPath)
+	if err != nil {
+		return false, err
+	}
+
+	absInnerPath, err := filepath.Abs(innerPath)
+	if err != nil {
+		return false, err
+	}
+
+	relativePath, err := filepath.Rel(absDirPath, absInnerPath)
+	if err != nil {
+		return false, err
+	}
+
+	return relativePath != ".." && !strings.HasPrefix(relativePath, ".."+string(filepath.Separator)), nil
+}
+
 // setupGitIgnore creates the .gitignore file, by default it will ignore all files in the directory.
 func (s *Service) setupGitIgnore() error {
 	gitIgnorePath := path.Join(s.getAstraDirPath(), ".gitignore")
diff --git a/errors.go b/errors.go
index ebd6e65..ba26661 100644
--- a/errors.go
+++ b/errors.go
@@ -12,4 +12,5 @@ var (
 	ErrOutputModeNotFound          = errors.New("output mode not found")
 	ErrOutputFilePathRequired      = errors.New("output file path is required")
 	ErrOutputDirectoryPathRequired = errors.New("output directory path is required")
+	ErrOutputDirectoryPathInvalid  = errors.New("output directory must not contain the working directory")
 )
-- 
2.43.0


From a1ac61afb4526eac1ca0b12326572050e8dd67db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:58 +0000
Subject: [PATCH 55/78] fix: write path parameters of any type as parameters in
 Azure Functions routes

---
 outputs/azureFunctions/convertRoute.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/outputs/azureFunctions/convertRoute.go b/outputs/azureFunctions/convertRoute.go
index 58c8373..d9ed16f 100644
--- a/outputs/azureFunctions/convertRoute.go
+++ b/outputs/azureFunctions/convertRoute.go
@@ -28,16 +28,20 @@ func convertRoute(route astra.Route) string {
 	routeParams := make(map[string]string)
 
 	for _, pathParams := range route.PathParams {
+		// A type without a constraint of its own is not constrained
+		constraint := ""
 		if azureType, ok := acceptedTypeMap[pathParams.Field.Type]; ok {
 			if azureType == "" {
 				return ""
 			}
 
-			if pathParams.IsRequired {
-				routeParams[":"+pathParams.Name] = "{" + pathParams.Name + ":" + azureType + "}"
-			} else {
-				routeParams["*"+pathParams.Name] = "{" + pathParams.Name + ":" + azureType + "?}"
-			}
+			constraint = ":" + azureType
+		}
+
+		if pathParams.IsRequired {
+			routeParams[":"+pathParams.Name] = "{" + pathParams.Name + constraint + "}"
+		} else {
+			routeParams["*"+pathParams.Name] = "{" + pathParams.Name + constraint + "?}"
 		}
 	}
 
-- 
2.43.0


From b9d8ae5bd713669ebeca6388deb591e1ded3f514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:09 +0000
Subject: [PATCH 56/78] fix: follow type aliases to their types

---
 astTraversal/alias.go       | 10 ++++++++++
 astTraversal/alias_go121.go | 11 +++++++++++
 astTraversal/function.go    |  3 ++-
 astTraversal/type.go        |  4 +++-
 4 files changed, 26 insertions(+), 2 deletions(-)
 create mode 100644 astTraversal/alias.go
 create mode 100644 astTraversal/alias_go121.go

diff --git a/astTraversal/alias.go b/astTraversal/alias.go
new file mode 100644
index 0000000..a2675c6
--- /dev/null
+++ b/astTraversal/alias.go
@@ -0,0 +1,10 @@
+//go:build go1.22
+
+package astTraversal
+
+import "go/types"
+
+// unalias returns the type that an alias stands for.
+func unalias(t types.Type) types.Type {
+	return types.Unalias(t)
+}
diff --git a/astTraversal/alias_go121.go b/astTraversal/alias_go121.go
new file mode 100644
index 0000000..680c316
--- /dev/null
+++ b/astTraversal/alias_go121.go
@@ -0,0 +1,11 @@
+//go:build !go1.22
+
+package astTraversal
+
+import "go/types"
+
+// unalias returns the type that an alias stands for.
+// There are no types of aliases before Go 1.22.
+func unalias(t types.Type) types.Type {
+	return t
+}
diff --git a/astTraversal/function.go b/astTraversal/function.go
index b117e69..19d4aad 100644
--- a/astTraversal/function.go
+++ b/astTraversal/function.go
@@ -61,9 +61,10 @@ func (f *FunctionTraverser) FindArgumentNameByType(typeName string, packagePath
 			continue
 		}
 
+		argType = unalias(argType)
 		if isPointer {
 			if named, ok := argType.(*types.Pointer); ok {
-				argType = named.Elem()
+				argType = unalias(named.Elem())
 			} else {
 				continue
 			}
diff --git a/astTraversal/type.go b/astTraversal/type.go
index bf2fcb6..e1496d4 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -31,6 +31,8 @@ func (t *TypeTraverser) SetName(name string) *TypeTraverser {
 }
 
 func (t *TypeTraverser) Result() (Result, error) {
+	t.Node = unalias(t.Node)
+
 	var result Result
 	switch n := t.Node.(type) {
 	case *types.Basic:
@@ -229,7 +231,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 			var validationTags ValidationTagMap
 			// The exported fields of an embedded struct are promoted, even when its type is not exported
 			if isEmbedded && !isExported {
-				embeddedType := f.Type()
+				embeddedType := unalias(f.Type())
 				if pointer, ok := embeddedType.(*types.Pointer); ok {
 					embeddedType = pointer.Elem()
 				}
-- 
2.43.0


From 77afea257a2bc052630ad25e6b4dd740c36d62b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:32 +0000
Subject: [PATCH 57/78] fix: build configurations that do not share their
 values with the builder

---
 configBuilder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/configBuilder.go b/configBuilder.go
index d1ec110..6cf8a34 100644
--- a/configBuilder.go
+++ b/configBuilder.go
@@ -60,8 +60,10 @@ func (c *ConfigBuilder) SetPort(port int) *ConfigBuilder {
 }
 
 func (c *ConfigBuilder) Build() (*Config, error) {
-	if err := c.config.Validate(); err != nil {
+	// The configuration is a copy, so that setting more on the builder doesn't change it
+	config := *c.config
+	if err := config.Validate(); err != nil {
 		return nil, err
 	}
-	return c.config, nil
+	return &config, nil
 }
-- 
2.43.0


From d36d943bb18e3eee9f4edd16b4676fbe604e630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:32 +0000
Subject: [PATCH 58/78] fix: separate a base path without a leading slash from
 the port of the server

---
 outputs/openapi/generate.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index b6ea6ad..8b5720e 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -339,6 +339,11 @@ func Generate(filePath string) astra.ServiceFunction {
 			s.Config.Description = "Generated by astra"
 		}
 
+		basePath := s.Config.BasePath
+		if basePath != "" && !strings.HasPrefix(basePath, "/") {
+			basePath = "/" + basePath
+		}
+
 		s.Log.Debug().Msg("Generating OpenAPI schema file")
 		output := OpenAPISchema{
 			OpenAPI: "3.0.0",
@@ -351,7 +356,7 @@ func Generate(filePath string) astra.ServiceFunction {
 			},
 			Servers: []Server{
 				{
-					URL: fmt.Sprintf("%s://%s:%d%s", protocol, s.Config.Host, s.Config.Port, s.Config.BasePath),
+					URL: fmt.Sprintf("%s://%s:%d%s", protocol, s.Config.Host, s.Config.Port, basePath),
 				},
 			},
 			Paths:      paths,
-- 
2.43.0


From 5408119134389a5453aca7700226d174da878b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:13 +0000
Subject: [PATCH 59/78] fix: write an output to the same file when it is
 generated again

---
 outputs/json/generate.go    | 3 +++
 outputs/openapi/generate.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/outputs/json/generate.go b/outputs/json/generate.go
index a51b1f3..c1bb2fd 100644
--- a/outputs/json/generate.go
+++ b/outputs/json/generate.go
@@ -20,6 +20,9 @@ type JSONOutput struct {
 // It will marshal the JSONOutput struct and write it to a file.
 func Generate(filePath string) astra.ServiceFunction {
 	return func(s *astra.Service) error {
+		// The path is completed anew each time the output is generated
+		filePath := filePath
+
 		s.Log.Info().Msg("Generating JSON output")
 		output := JSONOutput{
 			Routes:     s.Routes,
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 8b5720e..3fb7775 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -25,6 +25,9 @@ import (
 // It will also generate the components and their schemas.
 func Generate(filePath string) astra.ServiceFunction {
 	return func(s *astra.Service) error {
+		// The path is completed anew each time the output is generated
+		filePath := filePath
+
 		s.Log.Debug().Msg("Generating OpenAPI output")
 		if s.Config == nil {
 			s.Log.Error().Msg("No config found")
-- 
2.43.0


From 55ec487b259af4f2b455b21cacb4315d684dd9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:49 +0000
Subject: [PATCH 60/78] fix: stay in the file of a function when a custom
 function looks at a call

---
 inputs/gin/parseFunction.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 434a71e..f5cb64b 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -74,6 +74,8 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 		for _, customFunc := range s.CustomFuncs {
 			var newRoute *astra.Route
 			newRoute, err = customFunc(ctxName, astra.NewContextFuncBuilder(currRoute, callExpr))
+			// The custom function can have followed the call to another file
+			traverser.SetActiveFile(activeFile)
 			if err != nil {
 				return false
 			}
-- 
2.43.0


From 9e7394b7e6d94c714ed682bb061983f9ba49bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:49 +0000
Subject: [PATCH 61/78] fix: document calls that a custom function returns an
 error for

---
 inputs/gin/parseFunction.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index f5cb64b..7957427 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -77,7 +77,10 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			// The custom function can have followed the call to another file
 			traverser.SetActiveFile(activeFile)
 			if err != nil {
-				return false
+				// It can't be applied to this call, which is then treated as any other
+				traverser.Log.Error().Err(err).Msg("error in custom function")
+				err = nil
+				continue
 			}
 			if newRoute != nil {
 				// The callers hold the current route, so it has to be updated in place
-- 
2.43.0


From 0f3fd83b77e61255677b81cc8ce0cac1a4886928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:26 +0000
Subject: [PATCH 62/78] fix: refer to a type with a mapping in every binding

---
 outputs/openapi/components.go | 13 +++++++++++++
 outputs/openapi/generate.go   | 15 +++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 9196fc9..2b94dd0 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -285,6 +285,19 @@ func componentBindings(component astra.Field, dependent map[string]bool) ([]astT
 	return bindingTags, true
 }
 
+// withoutMappedFields returns the components of the service, those that have a type mapping without their fields.
+// A mapped component is the same for every binding, whatever tags its fields have.
+func withoutMappedFields(service *astra.Service) []astra.Field {
+	components := slices.Clone(service.Components)
+	for i, component := range components {
+		if _, ok := service.GetTypeMapping(component.Name, component.Package); ok {
+			components[i].StructFields = nil
+		}
+	}
+
+	return components
+}
+
 // valuePackage returns the package of the values of a slice, array or map.
 func valuePackage(field astra.Field) string {
 	if field.ValuePackage != "" {
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 3fb7775..c82a336 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -35,7 +35,8 @@ func Generate(filePath string) astra.ServiceFunction {
 		}
 
 		s.Log.Debug().Msg("Making collision safe struct names")
-		makeCollisionSafeNamesFromComponents(s.Components)
+		components := withoutMappedFields(s)
+		makeCollisionSafeNamesFromComponents(components)
 
 		protocol := "http"
 		if s.Config.Secure {
@@ -312,12 +313,10 @@ func Generate(filePath string) astra.ServiceFunction {
 		}
 		s.Log.Debug().Msg("Added paths")
 
-		components := Components{
-			Schemas: make(map[string]Schema),
-		}
+		schemas := make(map[string]Schema)
 
 		s.Log.Debug().Msg("Adding components")
-		for _, component := range s.Components {
+		for _, component := range components {
 			for _, bindingType := range orderBindingTags(component) {
 				schema, bound := componentToSchema(s, component, bindingType)
 				if !bound {
@@ -331,8 +330,8 @@ func Generate(filePath string) astra.ServiceFunction {
 				}
 
 				componentName, bound := makeComponentRefName(bindingType, component.Name, component.Package)
-				if _, exists := components.Schemas[componentName]; bound && !exists {
-					components.Schemas[componentName] = schema
+				if _, exists := schemas[componentName]; bound && !exists {
+					schemas[componentName] = schema
 				}
 			}
 		}
@@ -363,7 +362,7 @@ func Generate(filePath string) astra.ServiceFunction {
 				},
 			},
 			Paths:      paths,
-			Components: components,
+			Components: Components{Schemas: schemas},
 		}
 
 		if !strings.HasSuffix(filePath, ".json") && !strings.HasSuffix(filePath, ".yaml") && !strings.HasSuffix(filePath, ".yml") {
-- 
2.43.0


From 5310cf19d5a35e7e521a7647bfa4b8bb1f6b8f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:59 +0000
Subject: [PATCH 63/78] fix: find a variable of another package by its name at
 package level

---
 astTraversal/expression.go  |  5 +++++
 astTraversal/packageNode.go | 23 +++++++++++++++++------
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 2a95362..f01c065 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -118,6 +118,11 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", err
 		}
 
+		// The value of a field isn't known, whatever else has its name
+		if variable, ok := obj.(*types.Var); ok && variable.IsField() {
+			return "", errors.New("value not retrievable")
+		}
+
 		pkg := e.Traverser.Packages.FindOrAdd(obj.Pkg().Path())
 		_, err = e.Traverser.Packages.Get(pkg)
 		if err != nil {
diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index 4150a0f..ea385a9 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -122,17 +122,28 @@ func (p *PackageNode) FindObjectForIdentFuzzy(ident *ast.Ident) (types.Object, e
 
 	obj := p.Package.TypesInfo.ObjectOf(ident)
 	if obj == nil {
-		// Try to find the object in the package
+		// Try to find the object in the package, others have its name too (fields, methods and local ones)
+		obj = p.Package.Types.Scope().Lookup(ident.Name)
+	}
+
+	if obj == nil {
+		// Otherwise it's the first one in the source
+		var first token.Position
 		for k, v := range p.Package.TypesInfo.Defs {
-			if k.Name == ident.Name {
+			if k.Name != ident.Name || v == nil {
+				continue
+			}
+
+			pos := p.Package.Fset.Position(v.Pos())
+			if obj == nil || pos.Filename < first.Filename || (pos.Filename == first.Filename && pos.Offset < first.Offset) {
 				obj = v
-				break
+				first = pos
 			}
 		}
+	}
 
-		if obj == nil {
-			return nil, fmt.Errorf("object %s not found in package %s", ident.Name, p.Path())
-		}
+	if obj == nil {
+		return nil, fmt.Errorf("object %s not found in package %s", ident.Name, p.Path())
 	}
 
 	return obj, nil
-- 
2.43.0


From cf7168cd4f8d5ce7258c3e95adb06fe315542a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:00 +0000
Subject: [PATCH 64/78] fix: create the directory of an output when it has been
 removed in between

---
 dir.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dir.go b/dir.go
index 22e8483..5aa0a0c 100644
--- a/dir.go
+++ b/dir.go
@@ -42,7 +42,8 @@ func (s *Service) SetupTempOutputDir(dirPath string) (string, error) {
 		return "", err
 	}
 
-	err = os.Mkdir(tempDir, 0755)
+	// The directory is gone once the service, or another one in the same directory, has been torn down
+	err = os.MkdirAll(tempDir, 0755)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 1ae7aba57cb53c3b2a1b37cc0f19673d7e4f1a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:00 +0000
Subject: [PATCH 65/78] fix: read the values of an enumeration as Go literals

---
 astTraversal/type.go | 53 ++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 31 deletions(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index e1496d4..d9d4650 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -2,10 +2,9 @@ package astTraversal
 
 import (
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"go/types"
-	"strconv"
-	"strings"
 )
 
 type TypeTraverser struct {
@@ -79,48 +78,40 @@ func (t *TypeTraverser) Result() (Result, error) {
 										if ident.Name == t.name {
 											// We iterate over every value in the value spec
 											for _, value := range valueSpec.Values {
+												// A number can have a sign in front of the literal
+												sign := token.ADD
+												if unary, ok := value.(*ast.UnaryExpr); ok && unary.Op == token.SUB {
+													sign = token.SUB
+													value = unary.X
+												}
+
 												// If the value is a basic literal, we add it to the enum values
 												if basicLit, ok := value.(*ast.BasicLit); ok {
-													// Switch over the basic literal's kind to determine the type of the value
+													constantValue := constant.MakeFromLiteral(basicLit.Value, basicLit.Kind, 0)
+													if sign == token.SUB {
+														constantValue = constant.UnaryOp(sign, constantValue, 0)
+													}
+
+													// Switch over the type to determine the type of the value
 													// And format it accordingly
 													switch n.Kind() {
 													case types.String:
-														result.EnumValues = append(result.EnumValues, strings.Trim(basicLit.Value, "\""))
+														result.EnumValues = append(result.EnumValues, constant.StringVal(constantValue))
 													case types.Int:
-														i, err := strconv.Atoi(basicLit.Value)
-														if err != nil {
-															continue
+														if i, ok := constant.Int64Val(constant.ToInt(constantValue)); ok {
+															result.EnumValues = append(result.EnumValues, int(i))
 														}
-
-														result.EnumValues = append(result.EnumValues, i)
 													case types.Float32, types.Float64:
-														f, err := strconv.ParseFloat(basicLit.Value, 64)
-														if err != nil {
-															continue
-														}
-
+														f, _ := constant.Float64Val(constant.ToFloat(constantValue))
 														result.EnumValues = append(result.EnumValues, f)
-													case types.Bool:
-														b, err := strconv.ParseBool(basicLit.Value)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, b)
 													case types.Int8, types.Int16, types.Int32, types.Int64:
-														i, err := strconv.ParseInt(basicLit.Value, 10, 64)
-														if err != nil {
-															continue
+														if i, ok := constant.Int64Val(constant.ToInt(constantValue)); ok {
+															result.EnumValues = append(result.EnumValues, i)
 														}
-
-														result.EnumValues = append(result.EnumValues, i)
 													case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
-														i, err := strconv.ParseUint(basicLit.Value, 10, 64)
-														if err != nil {
-															continue
+														if i, ok := constant.Uint64Val(constant.ToInt(constantValue)); ok {
+															result.EnumValues = append(result.EnumValues, i)
 														}
-
-														result.EnumValues = append(result.EnumValues, i)
 													}
 												}
 											}
-- 
2.43.0


From 18757fc790e02a416e163a84118a8c0a6f12ed12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:49 +0000
Subject: [PATCH 66/78] fix: store a cache when its directory has been removed
 in between

---
 cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cache.go b/cache.go
index de59889..a18f107 100644
--- a/cache.go
+++ b/cache.go
@@ -25,6 +25,11 @@ func (s *Service) Cache() error {
 		cachePath = s.CachePath
 	} else {
 		cachePath = path.Join(s.getAstraDirPath(), cacheFileName)
+
+		// The directory is gone once another service in the same directory has been torn down
+		if err := s.setupAstraDir(); err != nil {
+			return err
+		}
 	}
 
 	if _, err := os.Stat(cachePath); err == nil {
-- 
2.43.0


From 43de3d2690710af44eb6623e75f568bdc860cdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:52 +0000
Subject: [PATCH 67/78] fix: rename the package of every file of the main
 package

---
 mainPackage.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mainPackage.go b/mainPackage.go
index 58c46fa..8c896ac 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -1,9 +1,10 @@
 package astra
 
 import (
+	"go/parser"
+	"go/token"
 	"os"
 	"path"
-	"regexp"
 	"slices"
 	"strings"
 )
@@ -15,9 +16,6 @@ import (
 const mainPackageReplacement = "astramain"
 const mainPackageReplacementPath = astraDir + "/" + mainPackageReplacement
 
-// mainPackageClause is the package clause of a file in the main package.
-var mainPackageClause = regexp.MustCompile(`(?m)^package main`)
-
 // setupTempMainPackage copies the main package to a temporary directory and replaces the package name with a different name.
 func (s *Service) setupTempMainPackage() error {
 	var pkgName string
@@ -40,6 +38,10 @@ func (s *Service) setupTempMainPackage() error {
 	}
 
 	for _, file := range files {
+		if file.IsDir() {
+			continue
+		}
+
 		if strings.HasSuffix(file.Name(), ".go") {
 			fileName := path.Join(s.WorkDir, file.Name())
 			fileData, err := os.ReadFile(fileName)
@@ -47,8 +49,12 @@ func (s *Service) setupTempMainPackage() error {
 				return err
 			}
 
-			if clause := mainPackageClause.FindIndex(fileData); clause != nil {
-				fileData = slices.Replace(fileData, clause[0], clause[1], []byte("package "+mainPackageReplacement)...)
+			// A file that isn't Go is not part of the package either
+			fileSet := token.NewFileSet()
+			clause, err := parser.ParseFile(fileSet, fileName, fileData, parser.PackageClauseOnly)
+			if err == nil && (clause.Name.Name == "main" || clause.Name.Name == "main_test") {
+				nameStart := fileSet.PositionFor(clause.Name.Pos(), false).Offset
+				fileData = slices.Replace(fileData, nameStart, nameStart+len("main"), []byte(mainPackageReplacement)...)
 			}
 
 			newFilePath := path.Join(newMainPkgPath, file.Name())
-- 
2.43.0


From 90ca5a9f844419adf6d4df2da545b2c33252c26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:33 +0000
Subject: [PATCH 68/78] fix: find the module of a main package by its go.mod,
 also further up

---
 mainPackage.go | 60 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/mainPackage.go b/mainPackage.go
index 8c896ac..cee328d 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -1,10 +1,13 @@
 package astra
 
 import (
+	"errors"
 	"go/parser"
 	"go/token"
+	"io/fs"
 	"os"
 	"path"
+	"path/filepath"
 	"slices"
 	"strings"
 )
@@ -18,8 +21,6 @@ const mainPackageReplacementPath = astraDir + "/" + mainPackageReplacement
 
 // setupTempMainPackage copies the main package to a temporary directory and replaces the package name with a different name.
 func (s *Service) setupTempMainPackage() error {
-	var pkgName string
-
 	newMainPkgPath := path.Join(s.getAstraDirPath(), mainPackageReplacement)
 	if _, err := os.Stat(newMainPkgPath); err == nil {
 		err := os.RemoveAll(newMainPkgPath)
@@ -62,23 +63,14 @@ func (s *Service) setupTempMainPackage() error {
 			if err != nil {
 				return err
 			}
-		} else if strings.HasSuffix(file.Name(), ".mod") {
-			fileName := path.Join(s.WorkDir, file.Name())
-			fileData, err := os.ReadFile(fileName)
-			if err != nil {
-				return err
-			}
-
-			for _, line := range strings.Split(string(fileData), "\n") {
-				fields := strings.Fields(line)
-				if len(fields) > 1 && fields[0] == "module" {
-					pkgName = strings.Trim(fields[1], "\"`")
-					break
-				}
-			}
 		}
 	}
 
+	pkgName, err := s.getMainPackagePath()
+	if err != nil {
+		return err
+	}
+
 	newMainPkg := path.Join(pkgName, mainPackageReplacementPath)
 
 	s.tempMainPackageName = newMainPkg
@@ -86,6 +78,42 @@ func (s *Service) setupTempMainPackage() error {
 	return nil
 }
 
+// getMainPackagePath returns the path of the main package, from the module that it's in.
+// The main package doesn't have to be in the directory of the go.mod file, it can be further down.
+func (s *Service) getMainPackagePath() (string, error) {
+	workDir, err := filepath.Abs(s.WorkDir)
+	if err != nil {
+		return "", err
+	}
+
+	for moduleDir := workDir; ; moduleDir = filepath.Dir(moduleDir) {
+		fileData, err := os.ReadFile(filepath.Join(moduleDir, "go.mod"))
+		if err != nil {
+			if !errors.Is(err, fs.ErrNotExist) {
+				return "", err
+			}
+			if moduleDir == filepath.Dir(moduleDir) {
+				return "", nil
+			}
+			continue
+		}
+
+		relativePath, err := filepath.Rel(moduleDir, workDir)
+		if err != nil {
+			return "", err
+		}
+
+		for _, line := range strings.Split(string(fileData), "\n") {
+			fields := strings.Fields(line)
+			if len(fields) > 1 && fields[0] == "module" {
+				return path.Join(strings.Trim(fields[1], "\"`"), filepath.ToSlash(relativePath)), nil
+			}
+		}
+
+		return "", nil
+	}
+}
+
 // cleanupTempMainPackage removes the temporary main package.
 func (s *Service) cleanupTempMainPackage() error {
 	newMainPkgPath := path.Join(s.getAstraDirPath(), mainPackageReplacement)
-- 
2.43.0


From 9233e39db376c2a7768c071d9f356398069e6bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:54 +0000
Subject: [PATCH 69/78] fix: write the .gitignore of the astra directory in one
 step

---
 dir.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dir.go b/dir.go
index 5aa0a0c..67cbaa3 100644
--- a/dir.go
+++ b/dir.go
@@ -107,17 +107,15 @@ func (s *Service) setupGitIgnore() error {
 		return nil
 	}
 
-	f, err := os.Create(gitIgnorePath)
-	if err != nil {
-		return err
-	}
+	// It's only there once it's complete, as it's not written again
+	tempGitIgnorePath := gitIgnorePath + ".tmp"
 
-	_, err = f.WriteString("*\n")
+	err := os.WriteFile(tempGitIgnorePath, []byte("*\n"), 0666)
 	if err != nil {
 		return err
 	}
 
-	return nil
+	return os.Rename(tempGitIgnorePath, gitIgnorePath)
 }
 
 // cleanupAstraDir removes the .astra directory.
-- 
2.43.0


From 92fc779057e89bf8c37a688958ab92e229e781fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:59 +0000
Subject: [PATCH 70/78] fix: report the packages that could not be read

---
 astTraversal/errors.go         |  3 +++
 astTraversal/loadPackage.go    | 16 +++++++++++++++-
 astTraversal/packageManager.go | 10 ++++++++++
 inputs/gin/parseRoute.go       |  3 +++
 4 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/astTraversal/errors.go b/astTraversal/errors.go
index 4145b13..57d60d5 100644
--- a/astTraversal/errors.go
+++ b/astTraversal/errors.go
@@ -6,4 +6,7 @@ var (
 	ErrInvalidNodeType = errors.New("invalid node type")
 	ErrInvalidIndex    = errors.New("invalid return index")
 	ErrBuiltInFunction = errors.New("builtin function")
+
+	// ErrPackageUnreadable is a package whose files could not be read, or one that depends on such a package.
+	ErrPackageUnreadable = errors.New("package could not be read")
 )
diff --git a/astTraversal/loadPackage.go b/astTraversal/loadPackage.go
index 0fe9305..a3e9ccf 100644
--- a/astTraversal/loadPackage.go
+++ b/astTraversal/loadPackage.go
@@ -42,11 +42,25 @@ func LoadPackageNoCache(pkgPath string, workDir string) (*packages.Package, erro
 		Dir: workDir,
 	}, pkgPath)
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("%w: %s: %w", ErrPackageUnreadable, pkgPath, err)
 	}
 
+	// A file that can't be read in a package leads to type errors in those that import it
+	var unreadable error
+	packages.Visit(pkgs, nil, func(pkg *packages.Package) {
+		for _, pkgErr := range pkg.Errors {
+			if pkgErr.Kind == packages.ParseError && unreadable == nil {
+				unreadable = pkgErr
+			}
+		}
+	})
+
 	for _, pkg := range pkgs {
 		for _, pkgErr := range pkg.Errors {
+			if unreadable != nil {
+				return nil, fmt.Errorf("%w: %s: %w", ErrPackageUnreadable, pkgPath, unreadable)
+			}
+
 			switch pkgErr.Kind {
 			case packages.ListError:
 				return nil, fmt.Errorf("package %s has list errors", pkgPath)
diff --git a/astTraversal/packageManager.go b/astTraversal/packageManager.go
index f28da2a..2372aa8 100644
--- a/astTraversal/packageManager.go
+++ b/astTraversal/packageManager.go
@@ -1,6 +1,7 @@
 package astTraversal
 
 import (
+	"errors"
 	"go/ast"
 	"strings"
 	"sync"
@@ -15,6 +16,7 @@ type PackageManager struct {
 	tree        *PackageNode
 	workDir     string
 	pathLoaders []PackagePathLoader
+	unreadable  error
 }
 
 func NewPackageManager(workDir string) *PackageManager {
@@ -74,6 +76,9 @@ func (pm *PackageManager) Get(n *PackageNode) (*packages.Package, error) {
 		}
 		pkg, err := LoadPackage(path, pm.workDir)
 		if err != nil {
+			if errors.Is(err, ErrPackageUnreadable) && pm.unreadable == nil {
+				pm.unreadable = err
+			}
 			return nil, err
 		}
 
@@ -92,6 +97,11 @@ func (pm *PackageManager) Get(n *PackageNode) (*packages.Package, error) {
 	return n.Package, nil
 }
 
+// Unreadable returns the first error of a package that could not be read, no matter whether the traversal carried on without it.
+func (pm *PackageManager) Unreadable() error {
+	return pm.unreadable
+}
+
 func (pm *PackageManager) Find(path string) *PackageNode {
 	pm.mu.Lock()
 	defer pm.mu.Unlock()
diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index 743ae61..2d4ba44 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -175,7 +175,10 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return true
 	})
 
+	// What the handler does with a package that can't be read is missing
+	err = traverser.Packages.Unreadable()
 	if err != nil {
+		log.Error().Err(err).Msg("Failed to read package")
 		return err
 	}
 
-- 
2.43.0


From a70649b4b828d4406cea49655973188d1cf4687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:56 +0000
Subject: [PATCH 71/78] fix: skip the struct fields of unsupported types

---
 astTraversal/type.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index d9d4650..eedaf8f 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -1,6 +1,7 @@
 package astTraversal
 
 import (
+	"errors"
 	"go/ast"
 	"go/constant"
 	"go/token"
@@ -236,7 +237,11 @@ func (t *TypeTraverser) Result() (Result, error) {
 			}
 
 			structFieldResult, err := t.Traverser.Type(f.Type(), t.Package).Result()
-			if err != nil {
+			if errors.Is(err, ErrInvalidNodeType) {
+				// There is nothing to document about functions and channels, but there is about the other fields
+				t.Traverser.Log.Debug().Str("field", name).Msg("Skipping field of unsupported type")
+				continue
+			} else if err != nil {
 				return Result{}, err
 			}
 
-- 
2.43.0


From 1277f6bb3e413f4bf66dfe60bcdc42d6dd393982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:59 +0000
Subject: [PATCH 72/78] fix: document a type once no matter how often it is
 referred to

---
 astTraversal/traverser.go | 3 +++
 astTraversal/type.go      | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/astTraversal/traverser.go b/astTraversal/traverser.go
index 8859f03..d8b0497 100644
--- a/astTraversal/traverser.go
+++ b/astTraversal/traverser.go
@@ -3,6 +3,7 @@ package astTraversal
 import (
 	"errors"
 	"go/ast"
+	"go/types"
 
 	"github.com/rs/zerolog"
 )
@@ -15,6 +16,7 @@ type BaseTraverser struct {
 	shouldAddComponent bool
 	addComponent       func(result Result) error
 	addingComponents   map[string]bool
+	addedComponents    map[*types.Named]bool
 }
 
 func New(workDir string) *BaseTraverser {
@@ -22,6 +24,7 @@ func New(workDir string) *BaseTraverser {
 	return &BaseTraverser{
 		Packages:         packages,
 		addingComponents: make(map[string]bool),
+		addedComponents:  make(map[*types.Named]bool),
 	}
 }
 
diff --git a/astTraversal/type.go b/astTraversal/type.go
index eedaf8f..4f52828 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -135,9 +135,9 @@ func (t *TypeTraverser) Result() (Result, error) {
 				return Result{}, err
 			}
 
-			// A type that refers to itself is already being added further up
+			// A type that refers to itself is already being added further up, and it's added once no matter how often it's referred to
 			typeID := n.Obj().Pkg().Path() + "." + n.Obj().Name()
-			if t.Traverser.shouldAddComponent && !t.Traverser.addingComponents[typeID] {
+			if t.Traverser.shouldAddComponent && !t.Traverser.addingComponents[typeID] && !t.Traverser.addedComponents[n] {
 				t.Traverser.addingComponents[typeID] = true
 				defer delete(t.Traverser.addingComponents, typeID)
 
@@ -161,6 +161,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 				if err != nil {
 					return Result{}, err
 				}
+				t.Traverser.addedComponents[n] = true
 			}
 		}
 
-- 
2.43.0


From ae2a47f00bede554598cd1916372f5e133c31b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:25 +0000
Subject: [PATCH 73/78] fix: do not look into functions without a body

---
 inputs/gin/parseFunction.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 7957427..efc7709 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -48,6 +48,11 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 		return errors.New("failed to find context variable name")
 	}
 
+	// A function that isn't written in Go has no body
+	if funcTraverser.Node.Body == nil {
+		return nil
+	}
+
 	var err error
 	// Loop over every statement in the function
 	ast.Inspect(funcTraverser.Node.Body, func(n ast.Node) bool {
-- 
2.43.0


From b93ab6c57faf7606bfdbb221efbca2f2dd59539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:24 +0000
Subject: [PATCH 74/78] fix: take the result types of all calls from the type
 checker

---
 astTraversal/expression.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index f01c065..31e40f0 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -182,11 +182,32 @@ func (e *ExpressionTraverser) conversionType(callExpr *ast.CallExpr) (types.Type
 	return fun.Type, true
 }
 
+// callResultType returns the type of the result of a call that the type checker knows.
+func (e *ExpressionTraverser) callResultType(callExpr *ast.CallExpr) (types.Type, bool) {
+	if e.File == nil || e.File.Package == nil || e.File.Package.Package == nil || e.File.Package.Package.TypesInfo == nil {
+		return nil, false
+	}
+
+	resultType := e.File.Package.Package.TypesInfo.TypeOf(callExpr)
+	if results, ok := resultType.(*types.Tuple); ok {
+		if e.ReturnNum >= results.Len() {
+			return nil, false
+		}
+
+		return results.At(e.ReturnNum).Type(), true
+	}
+
+	return resultType, resultType != nil
+}
+
 func (e *ExpressionTraverser) Type() (types.Type, error) {
 	switch n := e.Node.(type) {
 	case *ast.StarExpr:
 		return e.Traverser.Expression(n.X).Type()
 	case *ast.UnaryExpr:
+		if n.Op == token.ARROW { // What is received from a channel.
+			return e.File.Package.FindTypeForExpr(n)
+		}
 		return e.Traverser.Expression(n.X).Type()
 	case *ast.Ident:
 		obj, err := e.File.Package.FindObjectForIdentFuzzy(n)
@@ -213,6 +234,11 @@ func (e *ExpressionTraverser) Type() (types.Type, error) {
 			return resultType, nil
 		}
 
+		// The type checker knows the result of every call, also of function values, generic and built-in functions
+		if resultType, ok := e.callResultType(n); ok {
+			return resultType, nil
+		}
+
 		result, err := e.BuiltInFunctions(n)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 3d8f4987753c2e475645fa9a33d834a19d084a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:24 +0000
Subject: [PATCH 75/78] fix: document the inputs in the arguments of calls that
 can't be documented

---
 inputs/gin/parseFunction.go | 53 +++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index efc7709..7f090eb 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -55,6 +55,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 	var err error
 	// Loop over every statement in the function
+	// When a call can't be documented, there could still be others in its arguments
 	ast.Inspect(funcTraverser.Node.Body, func(n ast.Node) bool {
 		if n == nil {
 			return true
@@ -108,7 +109,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			if err != nil {
 				traverser.SetActiveFile(activeFile)
 				traverser.Log.Error().Err(err).Msg("failed to get function")
-				return false
+				return true
 			}
 
 			followed := append(slices.Clone(callers), funcTraverser.Node.Body)
@@ -121,7 +122,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			traverser.SetActiveFile(activeFile)
 			if err != nil {
 				traverser.Log.Error().Err(err).Msg("error parsing function")
-				return false
+				return true
 			}
 		} else {
 			var funcType *types.Func
@@ -136,7 +137,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			signature, ok := funcType.Type().(*types.Signature)
 			if !ok {
 				traverser.Log.Error().Err(err).Msg("error getting function signature")
-				return false
+				return true
 			}
 
 			signaturePath := GinPackagePath + "." + GinContextType
@@ -169,7 +170,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "XML":
 					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -194,7 +195,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "YAML":
 					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -219,7 +220,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ProtoBuf":
 					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -244,7 +245,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "Data":
 					currRoute, err = funcBuilder.StatusCode().Value().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -274,7 +275,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "String": // c.String
 					currRoute, err = funcBuilder.StatusCode().Ignored().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -296,7 +297,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "Status": // c.Status
 					currRoute, err = funcBuilder.StatusCode().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -336,7 +337,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetQueryArray", "QueryArray":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -358,7 +359,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetQueryMap", "QueryMap":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -380,7 +381,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ShouldBindQuery", "BindQuery":
 					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -399,7 +400,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 
 				// Body Param methods
@@ -442,7 +443,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ShouldBindJSON", "BindJSON":
 					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -462,7 +463,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ShouldBindXML", "BindXML":
 					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -482,7 +483,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ShouldBindYAML", "BindYAML":
 					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -502,7 +503,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetPostForm", "PostForm":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -524,7 +525,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetPostFormArray", "PostFormArray":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -547,7 +548,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetPostFormMap", "PostFormMap":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -570,7 +571,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "FormFile":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -592,7 +593,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetHeader":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -613,7 +614,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ShouldBindHeader", "BindHeader":
 					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -632,7 +633,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "Header":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -671,7 +672,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "AbortWithStatus":
 					currRoute, err = funcBuilder.StatusCode().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -692,7 +693,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "AbortWithStatusJSON":
 					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -717,7 +718,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				}
 			}
-- 
2.43.0


From 1eb70f87a5ea04df19e014e3f99d964132130a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:24 +0000
Subject: [PATCH 76/78] fix: follow functions of packages that are named
 otherwise than their directories

---
 astTraversal/traverser.go | 49 +++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/astTraversal/traverser.go b/astTraversal/traverser.go
index d8b0497..4de8ed1 100644
--- a/astTraversal/traverser.go
+++ b/astTraversal/traverser.go
@@ -104,7 +104,17 @@ func (t *BaseTraverser) FindDeclarationForNode(node ast.Node) (*DeclarationTrave
 				return nil, err
 			}
 
-			newNode, file, err := t.ActiveFile().Package.FindASTForType(nodeType.Name)
+			pkg := t.ActiveFile().Package
+			if declaring := t.declaringPackage(nodeType); declaring != nil { // Imported with a dot.
+				_, err := t.Packages.Get(declaring)
+				if err != nil {
+					return nil, err
+				}
+
+				pkg = declaring
+			}
+
+			newNode, file, err := pkg.FindASTForType(nodeType.Name)
 			if err != nil {
 				return nil, err
 			}
@@ -118,13 +128,13 @@ func (t *BaseTraverser) FindDeclarationForNode(node ast.Node) (*DeclarationTrave
 			return nil, errors.New("unsupported type")
 		}
 
-		if fileImport, ok := t.ActiveFile().FindImport(nodeIdent.Name); ok {
-			_, err := t.Packages.Get(fileImport.Package)
+		if imported := t.importedPackage(nodeIdent); imported != nil {
+			_, err := t.Packages.Get(imported)
 			if err != nil {
 				return nil, err
 			}
 
-			newNode, file, err := fileImport.Package.FindASTForType(nodeType.Sel.Name)
+			newNode, file, err := imported.FindASTForType(nodeType.Sel.Name)
 			if err != nil {
 				return nil, err
 			}
@@ -139,6 +149,37 @@ func (t *BaseTraverser) FindDeclarationForNode(node ast.Node) (*DeclarationTrave
 	return nil, errors.New("unsupported type")
 }
 
+// importedPackage returns the package that an identifier of the active file is the name of.
+// It needn't have the name of its directory, such as the packages in the directories of major versions.
+func (t *BaseTraverser) importedPackage(ident *ast.Ident) *PackageNode {
+	obj, err := t.ActiveFile().Package.FindUsesForIdent(ident)
+	if err != nil {
+		if fileImport, ok := t.ActiveFile().FindImport(ident.Name); ok {
+			return fileImport.Package
+		}
+
+		return nil
+	}
+
+	pkgName, ok := obj.(*types.PkgName)
+	if !ok {
+		return nil
+	}
+
+	return t.Packages.FindOrAdd(pkgName.Imported().Path())
+}
+
+// declaringPackage returns the package that declares what an identifier of the active file refers to, when it's another one.
+func (t *BaseTraverser) declaringPackage(ident *ast.Ident) *PackageNode {
+	activePackage := t.ActiveFile().Package.Package
+	obj, err := t.ActiveFile().Package.FindUsesForIdent(ident)
+	if err != nil || obj.Pkg() == nil || obj.Pkg() == activePackage.Types {
+		return nil
+	}
+
+	return t.Packages.FindOrAdd(obj.Pkg().Path())
+}
+
 func (t *BaseTraverser) SetAddComponentFunction(addComponent func(result Result) error) *BaseTraverser {
 	t.addComponent = addComponent
 	t.shouldAddComponent = true
-- 
2.43.0


From d08664ecad632f2300f61ea901568fc07f4aa0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:31 +0000
Subject: [PATCH 77/78] fix: resolve the values of variables of other packages
 where they are declared

---
 astTraversal/expression.go | 71 ++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 31e40f0..4e21d8a 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -91,6 +91,10 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return constObj.Val().String(), nil
 		}
 
+		if obj.Pkg() != nil && obj.Pkg() != e.File.Package.Package.Types { // Imported with a dot.
+			return e.packageVariableValue(obj)
+		}
+
 		node, err := e.File.Package.ASTAtPos(obj.Pos())
 		if err != nil {
 			return "", err
@@ -111,7 +115,10 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", errors.New("astNode is not of type ast.Expr")
 		}
 
-		return e.Traverser.Expression(exprNode).Value()
+		value := e.Traverser.Expression(exprNode)
+		value.File = e.File
+
+		return value.Value()
 	case *ast.SelectorExpr:
 		obj, err := e.File.Package.FindObjectForIdent(n.Sel)
 		if err != nil {
@@ -123,17 +130,6 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", errors.New("value not retrievable")
 		}
 
-		pkg := e.Traverser.Packages.FindOrAdd(obj.Pkg().Path())
-		_, err = e.Traverser.Packages.Get(pkg)
-		if err != nil {
-			return "", err
-		}
-
-		obj, err = pkg.FindObjectForIdentFuzzy(n.Sel)
-		if err != nil {
-			return "", err
-		}
-
 		if constObj, ok := obj.(*types.Const); ok {
 			if constObj.Val().Kind() == constant.String {
 				return constant.StringVal(constObj.Val()), nil
@@ -142,30 +138,45 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return constObj.Val().String(), nil
 		}
 
-		node, err := pkg.ASTAtPos(obj.Pos())
-		if err != nil {
-			return "", err
-		}
+		return e.packageVariableValue(obj)
+	}
 
-		declaration, err := e.Traverser.Declaration(node, n.Sel.Name)
-		if err != nil {
-			return "", err
-		}
+	return "", errors.New("value not retrievable")
+}
 
-		astNode, err := declaration.Value()
-		if err != nil {
-			return "", err
-		}
+// packageVariableValue returns the value that a variable of another package is declared with.
+// The names in the declaration are those of the file that it is in.
+func (e *ExpressionTraverser) packageVariableValue(obj types.Object) (string, error) {
+	pkg := e.Traverser.Packages.FindOrAdd(obj.Pkg().Path())
+	_, err := e.Traverser.Packages.Get(pkg)
+	if err != nil {
+		return "", err
+	}
 
-		exprNode, ok := astNode.(ast.Expr)
-		if !ok {
-			return "", errors.New("astNode is not of type ast.Expr")
-		}
+	node, file, err := pkg.FindASTForType(obj.Name())
+	if err != nil {
+		return "", err
+	}
 
-		return e.Traverser.Expression(exprNode).Value()
+	declaration, err := e.Traverser.Declaration(node, obj.Name())
+	if err != nil {
+		return "", err
 	}
 
-	return "", errors.New("value not retrievable")
+	astNode, err := declaration.Value()
+	if err != nil {
+		return "", err
+	}
+
+	exprNode, ok := astNode.(ast.Expr)
+	if !ok {
+		return "", errors.New("astNode is not of type ast.Expr")
+	}
+
+	value := e.Traverser.Expression(exprNode)
+	value.File = file
+
+	return value.Value()
 }
 
 // conversionType returns the type that a conversion, such as []byte("text"), converts to.
-- 
2.43.0


From cd085aa848d78327dd248812bb82e9d5e318cd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:59 +0000
Subject: [PATCH 78/78] fix: give a struct with tagged and untagged fields a
 component for every binding

---
 outputs/openapi/components.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 2b94dd0..eb4a7b0 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -208,14 +208,22 @@ func orderBindingTags(component astra.Field) []astTraversal.BindingTagType {
 	return ordered
 }
 
-// hasPartialBindings is whether a component has fields that are tagged for different bindings.
+// hasPartialBindings is whether a component has fields that are tagged for different bindings, or some without tags.
 func hasPartialBindings(fields map[string]astra.Field, bindingTags []astTraversal.BindingTagType) bool {
+	// The fields of an embedded field have tags of their own, so it is not one without tags.
+	hasUntagged := false
+	for _, field := range fields {
+		if _, untagged := field.StructFieldBindingTags[astTraversal.NoBindingTag]; untagged && !field.IsEmbedded {
+			hasUntagged = true
+		}
+	}
+
 	for _, field := range fields {
 		if _, untagged := field.StructFieldBindingTags[astTraversal.NoBindingTag]; untagged || len(field.StructFieldBindingTags) == 0 {
 			continue
 		}
 		for _, bindingType := range bindingTags {
-			if _, tagged := field.StructFieldBindingTags[bindingType]; !tagged && bindingType != astTraversal.NoBindingTag {
+			if _, tagged := field.StructFieldBindingTags[bindingType]; !tagged && (bindingType != astTraversal.NoBindingTag || hasUntagged) {
 				return true
 			}
 		}
-- 
2.43.0

