From fe610b34336e80ad8f17c5e01575a8b76c43f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 01/22] fix: do not let an origin call overwrite the mocked
 call's own arguments

append(args[0:shift], ...) reused the backing array of the mocked call's
arguments, so calling the origin handle inside a When hook changed the
arguments later conditions, hooks and the original received.
---
 mock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock.go b/mock.go
index 676f006..4d897eb 100644
--- a/mock.go
+++ b/mock.go
@@ -313,7 +313,7 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		}
 		proxyCallerSetter = func(args []reflect.Value) {
 			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
-				return tool.ReflectCall(proxy.Elem(), append(args[0:shift], innerArgs...))
+				return tool.ReflectCall(proxy.Elem(), append(args[0:shift:shift], innerArgs...))
 			}))
 		}
 	}
-- 
2.43.0


From c1ce7daab1eddfb61de3678f5733f193932d62f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 02/22] fix: reject a re-mock before installing it

The re-mock check ran after the target's code (or the variable) had already
been overwritten, so a refused mock stayed in force and could not be undone.
---
 convey.go   | 8 +++++++-
 mock.go     | 1 +
 mock_var.go | 1 +
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/convey.go b/convey.go
index 7e7bd3e..99f58e5 100644
--- a/convey.go
+++ b/convey.go
@@ -50,11 +50,17 @@ func PatchConvey(items ...interface{}) {
 
 func addToGlobal(mocker mockerInstance) {
 	tool.DebugPrintf("%v added\n", mocker.key())
+	assertNotMocked(mocker)
+	gMocker[len(gMocker)-1][mocker.key()] = mocker
+}
+
+// assertNotMocked rejects a mock whose target has been mocked in the current context. It must be called before anything
+// is changed, otherwise the rejected mock would stay in force
+func assertNotMocked(mocker mockerInstance) {
 	last, ok := gMocker[len(gMocker)-1][mocker.key()]
 	if ok {
 		tool.Assert(!ok, "re-mock %v, previous mock at: %v", mocker.name(), last.caller())
 	}
-	gMocker[len(gMocker)-1][mocker.key()] = mocker
 }
 
 func removeFromGlobal(mocker mockerInstance) {
diff --git a/mock.go b/mock.go
index 4d897eb..61513b5 100644
--- a/mock.go
+++ b/mock.go
@@ -327,6 +327,7 @@ func (mocker *Mocker) Patch() *Mocker {
 	if mocker.isPatched {
 		return mocker
 	}
+	assertNotMocked(mocker)
 	mocker.patch = monkey.PatchValue(mocker.target, mocker.hook, reflect.ValueOf(mocker.proxy), mocker.builder.unsafe, mocker.builder.generic)
 	mocker.isPatched = true
 	addToGlobal(mocker)
diff --git a/mock_var.go b/mock_var.go
index 910816c..f79554b 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -73,6 +73,7 @@ func (mocker *MockerVar) Patch() *MockerVar {
 	defer mocker.lock.Unlock()
 
 	if !mocker.isPatched {
+		assertNotMocked(mocker)
 		mocker.target.Set(mocker.hook)
 		mocker.isPatched = true
 		addToGlobal(mocker)
-- 
2.43.0


From ae58aa4fcf4674b798479799c2974a9324475291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 03/22] fix: remove an undone mock from the context that holds
 it

Undoing a mock of an outer PatchConvey inside an inner one left its entry in
the outer context, so mocking the target again there was refused as re-mock.
---
 convey.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/convey.go b/convey.go
index 99f58e5..0e3e7c1 100644
--- a/convey.go
+++ b/convey.go
@@ -65,7 +65,15 @@ func assertNotMocked(mocker mockerInstance) {
 
 func removeFromGlobal(mocker mockerInstance) {
 	tool.DebugPrintf("%v removed\n", mocker.key())
-	delete(gMocker[len(gMocker)-1], mocker.key())
+	for i := len(gMocker) - 1; i >= 0; i-- {
+		// the mocker may have been added by an outer context, or another mocker of the same target may have been added
+		// by the current one
+		if gMocker[i][mocker.key()] != mocker {
+			continue
+		}
+		delete(gMocker[i], mocker.key())
+		return
+	}
 }
 
 // Unpatch all mocks in current 'PatchConvey' context
-- 
2.43.0


From 9f9235d98ac263aeb6c8324c9b75ac296a781754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 04/22] fix: undo the mocks of a context latest first

Mocks of targets that share code (instantiations of one generic function) or
memory (a struct and its field) were undone in map order, which could restore
bytes saved while another mock was active and leave it in force for good.
---
 convey.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/convey.go b/convey.go
index 0e3e7c1..ff5aedf 100644
--- a/convey.go
+++ b/convey.go
@@ -18,6 +18,7 @@ package mockey
 
 import (
 	"reflect"
+	"sort"
 
 	"github.com/bytedance/mockey/internal/tool"
 	"github.com/smartystreets/goconvey/convey"
@@ -25,6 +26,12 @@ import (
 
 var gMocker = make([]map[uintptr]mockerInstance, 0)
 
+// gOrder numbers the active mocks in the order in which they were applied, gCount is the last number used
+var (
+	gOrder = make(map[mockerInstance]uint64)
+	gCount uint64
+)
+
 func init() {
 	gMocker = append(gMocker, make(map[uintptr]mockerInstance))
 }
@@ -35,7 +42,7 @@ func PatchConvey(items ...interface{}) {
 			items[i] = reflect.MakeFunc(reflect.TypeOf(item), func(args []reflect.Value) []reflect.Value {
 				gMocker = append(gMocker, make(map[uintptr]mockerInstance))
 				defer func() {
-					for _, mocker := range gMocker[len(gMocker)-1] {
+					for _, mocker := range latestFirst(gMocker[len(gMocker)-1]) {
 						mocker.unPatch()
 					}
 					gMocker = gMocker[:len(gMocker)-1]
@@ -52,6 +59,8 @@ func addToGlobal(mocker mockerInstance) {
 	tool.DebugPrintf("%v added\n", mocker.key())
 	assertNotMocked(mocker)
 	gMocker[len(gMocker)-1][mocker.key()] = mocker
+	gCount++
+	gOrder[mocker] = gCount
 }
 
 // assertNotMocked rejects a mock whose target has been mocked in the current context. It must be called before anything
@@ -72,10 +81,22 @@ func removeFromGlobal(mocker mockerInstance) {
 			continue
 		}
 		delete(gMocker[i], mocker.key())
+		delete(gOrder, mocker)
 		return
 	}
 }
 
+// latestFirst returns the mocks of a context in the order in which they have to be undone. Different targets may share
+// code (generic functions) or memory (variables), so what the first mock saved has to be restored last
+func latestFirst(mockers map[uintptr]mockerInstance) []mockerInstance {
+	res := make([]mockerInstance, 0, len(mockers))
+	for _, mocker := range mockers {
+		res = append(res, mocker)
+	}
+	sort.Slice(res, func(i, j int) bool { return gOrder[res[i]] > gOrder[res[j]] })
+	return res
+}
+
 // Unpatch all mocks in current 'PatchConvey' context
 //
 // If the caller is out of 'PatchConvey', it will unpatch all mocks
@@ -101,7 +122,7 @@ func removeFromGlobal(mocker mockerInstance) {
 //		}
 //	})
 func UnPatchAll() {
-	for _, mocker := range gMocker[len(gMocker)-1] {
+	for _, mocker := range latestFirst(gMocker[len(gMocker)-1]) {
 		mocker.unPatch()
 	}
 }
-- 
2.43.0


From b007d77ec6b09a798ea1840184aa67e193b727f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 05/22] fix: make To on an already mocked variable take effect

To on an active variable mock was silently ignored, and a To that is refused
(wrong type, re-mock) still replaced the value of the next Patch.
---
 mock_var.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mock_var.go b/mock_var.go
index f79554b..d62d488 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -54,20 +54,35 @@ func MockValue(targetPtr interface{}) *MockerVar {
 
 func (mocker *MockerVar) To(value interface{}) *MockerVar {
 	var v reflect.Type
+	var hook reflect.Value
 
 	if value == nil {
-		mocker.hook = reflect.Zero(mocker.targetType)
+		hook = reflect.Zero(mocker.targetType)
 		v = mocker.targetType
 	} else {
-		mocker.hook = reflect.ValueOf(value)
+		hook = reflect.ValueOf(value)
 		v = reflect.TypeOf(value)
 	}
 
 	tool.Assert(v.AssignableTo(mocker.targetType), "value type:%s not match target type:%s", v.Name(), mocker.targetType.Name())
+	mocker.setHook(hook)
 	mocker.Patch()
 	return mocker
 }
 
+// setHook sets the value of the next Patch, which is also the current one if the variable is already mocked
+func (mocker *MockerVar) setHook(hook reflect.Value) {
+	mocker.lock.Lock()
+	defer mocker.lock.Unlock()
+
+	if mocker.isPatched {
+		mocker.target.Set(hook)
+	} else {
+		assertNotMocked(mocker)
+	}
+	mocker.hook = hook
+}
+
 func (mocker *MockerVar) Patch() *MockerVar {
 	mocker.lock.Lock()
 	defer mocker.lock.Unlock()
-- 
2.43.0


From 4d284fea54f35e09b6782063118b23202cc121ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 06/22] fix: a refused setting leaves builder and mocker as
 they were

Reconfiguring an active mock with an argument that does not fit undid the
mock, an origin handle that does not fit was kept, and a refused When, To or
Return could leave an empty condition behind.
---
 convey.go |  6 +++---
 mock.go   | 26 ++++++++++++++++++--------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/convey.go b/convey.go
index ff5aedf..4f8f058 100644
--- a/convey.go
+++ b/convey.go
@@ -63,11 +63,11 @@ func addToGlobal(mocker mockerInstance) {
 	gOrder[mocker] = gCount
 }
 
-// assertNotMocked rejects a mock whose target has been mocked in the current context. It must be called before anything
-// is changed, otherwise the rejected mock would stay in force
+// assertNotMocked rejects a mock whose target has been mocked by another one in the current context. It must be called
+// before anything is changed, otherwise the rejected mock would stay in force
 func assertNotMocked(mocker mockerInstance) {
 	last, ok := gMocker[len(gMocker)-1][mocker.key()]
-	if ok {
+	if ok && last != mocker {
 		tool.Assert(!ok, "re-mock %v, previous mock at: %v", mocker.name(), last.caller())
 	}
 }
diff --git a/mock.go b/mock.go
index 61513b5..0ecc2c9 100644
--- a/mock.go
+++ b/mock.go
@@ -122,6 +122,9 @@ func (builder *MockBuilder) Origin(funcPtr interface{}) *MockBuilder {
 
 func (builder *MockBuilder) origin(funcPtr interface{}) *MockBuilder {
 	tool.AssertPtr(funcPtr)
+	pElem := reflect.ValueOf(funcPtr).Elem()
+	tool.Assert(pElem.Kind() == reflect.Func, "origin receiver must be a function pointer")
+	(&Mocker{}).missReceiver(reflect.TypeOf(builder.target), pElem.Interface()) // refuse a function that does not fit
 	builder.proxyCaller = funcPtr
 	return builder
 }
@@ -130,11 +133,20 @@ func (builder *MockBuilder) lastCondition() *mockCondition {
 	cond := builder.conditions[len(builder.conditions)-1]
 	if cond.Complete() {
 		cond = builder.newCondition()
-		builder.conditions = append(builder.conditions, cond)
 	}
 	return cond
 }
 
+// setLast applies set to the last incomplete condition, a new one is only added if set accepts its arguments
+func (builder *MockBuilder) setLast(set func(cond *mockCondition)) *MockBuilder {
+	cond := builder.lastCondition()
+	set(cond)
+	if cond != builder.conditions[len(builder.conditions)-1] {
+		builder.conditions = append(builder.conditions, cond)
+	}
+	return builder
+}
+
 func (builder *MockBuilder) newCondition() *mockCondition {
 	return &mockCondition{builder: builder}
 }
@@ -161,8 +173,7 @@ func (builder *MockBuilder) newCondition() *mockCondition {
 //	}
 //	Mock((*Foo).GetAge).When(func(f *Foo, younger int) bool { return younger < 0 }).Return("0").Build()
 func (builder *MockBuilder) When(when interface{}) *MockBuilder {
-	builder.lastCondition().SetWhen(when)
-	return builder
+	return builder.setLast(func(cond *mockCondition) { cond.SetWhen(when) })
 }
 
 // To declares the hook function that's called to replace the target function.
@@ -188,13 +199,11 @@ func (builder *MockBuilder) When(when interface{}) *MockBuilder {
 //	}
 //	Mock((*Foo).Bar).To(func(f *Foo, other string) bool {return true}).Build()
 func (builder *MockBuilder) To(hook interface{}) *MockBuilder {
-	builder.lastCondition().SetTo(hook)
-	return builder
+	return builder.setLast(func(cond *mockCondition) { cond.SetTo(hook) })
 }
 
 func (builder *MockBuilder) Return(results ...interface{}) *MockBuilder {
-	builder.lastCondition().SetReturn(results...)
-	return builder
+	return builder.setLast(func(cond *mockCondition) { cond.SetReturn(results...) })
 }
 
 func (builder *MockBuilder) IncludeCurrentGoRoutine() *MockBuilder {
@@ -406,8 +415,9 @@ func (mocker *Mocker) Origin(funcPtr interface{}) *Mocker {
 }
 
 func (mocker *Mocker) rePatch(do func()) *Mocker {
+	assertNotMocked(mocker)
+	do() // may refuse the new setting, in which case the mocker must stay as it is
 	mocker.UnPatch()
-	do()
 	mocker.buildHook()
 	mocker.Patch()
 	return mocker
-- 
2.43.0


From b8e3ea118802769b8d94edbc4d6edf9cf892c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:27 +0000
Subject: [PATCH 07/22] fix: keep the code of a call in progress when its mock
 is undone or reset

Undoing a mock unmapped the page with the relocated entry of the target, so a
call that was still in a condition or hook, or an origin handle kept by the
user, crashed the process; reconfiguring the mock made such a call panic on a
nil function. The page now lives as long as the proxy function, and a call
keeps the proxy, condition and hook it started with.
---
 internal/monkey/patch.go | 16 ++++++++++++++--
 mock.go                  |  5 +++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/monkey/patch.go b/internal/monkey/patch.go
index 8f4ee24..ff977ec 100644
--- a/internal/monkey/patch.go
+++ b/internal/monkey/patch.go
@@ -18,6 +18,8 @@ package monkey
 
 import (
 	"reflect"
+	"runtime"
+	"unsafe"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
 	"github.com/bytedance/mockey/internal/monkey/fn"
@@ -31,12 +33,14 @@ type Patch struct {
 	size int
 	code []byte
 	base uintptr
+
+	proxy *uintptr // the proxy function object, calls in progress and saved copies of it may outlive the patch
 }
 
 // Unpatch restores the patched function to the original function.
 func (p *Patch) Unpatch() {
 	mem.WriteWithSTW(p.base, p.code[:p.size])
-	common.ReleasePage(p.code)
+	p.proxy = nil // the code page is released when nobody can call the proxy function anymore
 }
 
 // PatchValue replace the target function with a hook function, and stores the target function in the proxy function
@@ -72,7 +76,15 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 	// replace target function codes before the cutting point
 	mem.WriteWithSTW(targetAddr, hookCode)
 
-	return &Patch{base: targetAddr, code: proxyCode, size: cuttingIdx}
+	return &Patch{base: targetAddr, code: proxyCode, size: cuttingIdx, proxy: ownPage(proxy, proxyCode)}
+}
+
+// ownPage makes the function object that proxy points to the owner of its code page: the page is released together with
+// the object
+func ownPage(proxy reflect.Value, page []byte) *uintptr {
+	obj := *(**uintptr)(unsafe.Pointer(proxy.Pointer()))
+	runtime.SetFinalizer(obj, func(*uintptr) { common.ReleasePage(page) })
+	return obj
 }
 
 func PatchFunc(fn, hook, proxy interface{}, unsafe bool) *Patch {
diff --git a/mock.go b/mock.go
index 0ecc2c9..3066f2c 100644
--- a/mock.go
+++ b/mock.go
@@ -245,15 +245,16 @@ func (mocker *Mocker) missReceiver(target reflect.Type, hook interface{}) bool {
 func (mocker *Mocker) buildHook() {
 	proxySetter := mocker.buildProxy()
 
+	proxy := mocker.proxy // a call in progress keeps its proxy and hooks if the mocker is reset
 	originExec := func(args []reflect.Value) []reflect.Value {
-		return tool.ReflectCall(reflect.ValueOf(mocker.proxy).Elem(), args)
+		return tool.ReflectCall(reflect.ValueOf(proxy).Elem(), args)
 	}
 
 	match := []func(args []reflect.Value) bool{}
 	exec := []func(args []reflect.Value) []reflect.Value{}
 
 	for i := range mocker.builder.conditions {
-		condition := mocker.builder.conditions[i]
+		condition := *mocker.builder.conditions[i]
 		if condition.when == nil {
 			// when condition is not set, just go into hook exec
 			match = append(match, func(args []reflect.Value) bool { return true })
-- 
2.43.0


From b8bb1e275d2ff1906c1b5569f612be9aa08a287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 08/22] fix: bind an origin handle to the call in progress on
 its goroutine

Every mocked call rebound the user's handle to its own receiver, so after a
nested, recursive or concurrent mocked call a handle without receiver ran the
original on another call's receiver. The leading arguments are now kept per
goroutine and restored when the call ends, and a handle that has all
parameters is the original from Patch on instead of from the first call on.
---
 mock.go        | 22 ++++++++-----
 mock_origin.go | 88 ++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 102 insertions(+), 8 deletions(-)
 create mode 100644 mock_origin.go

diff --git a/mock.go b/mock.go
index 3066f2c..78bc7ae 100644
--- a/mock.go
+++ b/mock.go
@@ -43,6 +43,7 @@ type Mocker struct {
 	lock      sync.Mutex
 	isPatched bool
 	builder   *MockBuilder
+	origin    *originHandle // origin function set by user, may be nil
 
 	outerCaller tool.CallerInfo
 }
@@ -276,7 +277,7 @@ func (mocker *Mocker) buildHook() {
 	}
 
 	mockerHook := reflect.MakeFunc(mocker.builder.hookType(), func(args []reflect.Value) []reflect.Value {
-		proxySetter(args) // 设置origin调用proxy
+		defer proxySetter(args)() // 设置origin调用proxy
 
 		mocker.access()
 		switch mocker.builder.filterGoroutine {
@@ -305,10 +306,11 @@ func (mocker *Mocker) buildHook() {
 }
 
 // buildProx create a proxyCaller which could call origin directly
-func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
+func (mocker *Mocker) buildProxy() func(args []reflect.Value) func() {
 	proxy := reflect.New(mocker.builder.hookType())
 
-	proxyCallerSetter := func(args []reflect.Value) {}
+	proxyCallerSetter := func(args []reflect.Value) func() { return func() {} }
+	mocker.origin = nil
 	if mocker.builder.proxyCaller != nil {
 		pVal := reflect.ValueOf(mocker.builder.proxyCaller)
 		tool.Assert(pVal.Kind() == reflect.Ptr && pVal.Elem().Kind() == reflect.Func, "origin receiver must be a function pointer")
@@ -321,11 +323,12 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		if mocker.missReceiver(mocker.target.Type(), pElem.Interface()) {
 			shift += 1
 		}
-		proxyCallerSetter = func(args []reflect.Value) {
-			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
-				return tool.ReflectCall(proxy.Elem(), append(args[0:shift:shift], innerArgs...))
-			}))
-		}
+		origin := &originHandle{handle: pElem, shift: shift, calls: make(map[int64][][]reflect.Value)}
+		origin.fn = reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
+			return tool.ReflectCall(proxy.Elem(), append(origin.leading(), innerArgs...))
+		})
+		proxyCallerSetter = origin.enter
+		mocker.origin = origin
 	}
 	mocker.proxy = proxy.Interface()
 	return proxyCallerSetter
@@ -341,6 +344,9 @@ func (mocker *Mocker) Patch() *Mocker {
 	mocker.patch = monkey.PatchValue(mocker.target, mocker.hook, reflect.ValueOf(mocker.proxy), mocker.builder.unsafe, mocker.builder.generic)
 	mocker.isPatched = true
 	addToGlobal(mocker)
+	if mocker.origin != nil {
+		mocker.origin.reset()
+	}
 
 	mocker.outerCaller = tool.OuterCaller()
 	return mocker
diff --git a/mock_origin.go b/mock_origin.go
new file mode 100644
index 0000000..9e16155
--- /dev/null
+++ b/mock_origin.go
@@ -0,0 +1,88 @@
+/*
+ * Copyright 2022 ByteDance Inc.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package mockey
+
+import (
+	"reflect"
+	"sync"
+
+	"github.com/bytedance/mockey/internal/tool"
+)
+
+// originHandle is the origin function of a mocker. It may omit the leading arguments of the target (generic info and
+// receiver), which are those of the mocked call in progress on the calling goroutine then.
+type originHandle struct {
+	handle reflect.Value // the variable of the user
+	fn     reflect.Value // calls the target with leading arguments
+	shift  int           // number of leading arguments omitted
+
+	lock  sync.Mutex
+	bound bool
+	calls map[int64][][]reflect.Value // leading arguments of the calls in progress per goroutine, outermost first
+	last  []reflect.Value             // for goroutines without mocked call in progress
+}
+
+// reset is called when the mocker is patched
+func (o *originHandle) reset() {
+	o.lock.Lock()
+	defer o.lock.Unlock()
+	o.bound = false
+	if o.shift == 0 {
+		o.bind()
+	}
+}
+
+func (o *originHandle) bind() {
+	if !o.bound {
+		o.handle.Set(o.fn)
+		o.bound = true
+	}
+}
+
+// enter is called at the beginning of a mocked call, the returned function at its end
+func (o *originHandle) enter(args []reflect.Value) func() {
+	o.lock.Lock()
+	defer o.lock.Unlock()
+	o.bind()
+	if o.shift == 0 {
+		return func() {}
+	}
+	gId := tool.GetGoroutineID()
+	o.last = args[0:o.shift:o.shift]
+	o.calls[gId] = append(o.calls[gId], o.last)
+	return func() {
+		o.lock.Lock()
+		defer o.lock.Unlock()
+		if n := len(o.calls[gId]) - 1; n > 0 {
+			o.calls[gId] = o.calls[gId][:n]
+		} else {
+			delete(o.calls, gId)
+		}
+	}
+}
+
+func (o *originHandle) leading() []reflect.Value {
+	if o.shift == 0 {
+		return nil
+	}
+	o.lock.Lock()
+	defer o.lock.Unlock()
+	if calls := o.calls[tool.GetGoroutineID()]; len(calls) > 0 {
+		return calls[len(calls)-1]
+	}
+	return o.last
+}
-- 
2.43.0


From 4c53c5d46f8b72bc122e8545568aeb309c478f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:48 +0000
Subject: [PATCH 09/22] fix: refuse a hook or origin handle whose results do
 not fit the target

---
 internal/tool/check.go | 13 +++++++++++++
 mock.go                |  1 +
 mock_condition.go      |  1 +
 3 files changed, 15 insertions(+)

diff --git a/internal/tool/check.go b/internal/tool/check.go
index 42e5871..d6eeb49 100644
--- a/internal/tool/check.go
+++ b/internal/tool/check.go
@@ -43,3 +43,16 @@ func CheckFuncArgs(a, b reflect.Type, shiftA, shiftB int) bool {
 	}
 	return false
 }
+
+// CheckFuncResults checks if the results of a can be used as the results of b
+func CheckFuncResults(a, b reflect.Type) bool {
+	if a.NumOut() != b.NumOut() {
+		return false
+	}
+	for i := 0; i < a.NumOut(); i++ {
+		if !a.Out(i).AssignableTo(b.Out(i)) {
+			return false
+		}
+	}
+	return true
+}
diff --git a/mock.go b/mock.go
index 78bc7ae..0500f8a 100644
--- a/mock.go
+++ b/mock.go
@@ -126,6 +126,7 @@ func (builder *MockBuilder) origin(funcPtr interface{}) *MockBuilder {
 	pElem := reflect.ValueOf(funcPtr).Elem()
 	tool.Assert(pElem.Kind() == reflect.Func, "origin receiver must be a function pointer")
 	(&Mocker{}).missReceiver(reflect.TypeOf(builder.target), pElem.Interface()) // refuse a function that does not fit
+	tool.Assert(tool.CheckFuncResults(reflect.TypeOf(builder.target), pElem.Type()), "target:%v, origin:%v results not match", reflect.TypeOf(builder.target), pElem.Type())
 	builder.proxyCaller = funcPtr
 	return builder
 }
diff --git a/mock_condition.go b/mock_condition.go
index 4105790..57e60be 100644
--- a/mock_condition.go
+++ b/mock_condition.go
@@ -98,6 +98,7 @@ func (m *mockCondition) SetToForce(to interface{}) {
 	tool.Assert(hType.Kind() == reflect.Func, "to a is not a func")
 	hasGeneric, hasReceiver := m.checkGenericAndReceiver(hType)
 	tool.Assert(m.builder.generic || !hasGeneric, "non-generic function should not have 'GenericInfo' as first argument")
+	tool.Assert(tool.CheckFuncResults(hType, reflect.TypeOf(m.builder.target)), "target:%v, hook:%v results not match", reflect.TypeOf(m.builder.target), hType)
 	m.hook = reflect.MakeFunc(m.builder.hookType(), func(args []reflect.Value) (results []reflect.Value) {
 		results = tool.ReflectCall(reflect.ValueOf(to), m.adaptArgsForReflectCall(args, hasGeneric, hasReceiver))
 		return
-- 
2.43.0


From eea500036b23548f8f7b7c9177278c3cfe59a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:50 +0000
Subject: [PATCH 10/22] fix: pass the variadic arguments of a mocked call on as
 they are

---
 internal/tool/call.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/internal/tool/call.go b/internal/tool/call.go
index 40dd333..fa682a8 100644
--- a/internal/tool/call.go
+++ b/internal/tool/call.go
@@ -22,16 +22,8 @@ import (
 
 func ReflectCall(f reflect.Value, args []reflect.Value) []reflect.Value {
 	if f.Type().IsVariadic() {
-		newArgs := make([]reflect.Value, 0)
-		lastArg := args[len(args)-1]
-		for i := 0; i < len(args)-1; i++ {
-			newArgs = append(newArgs, args[i])
-		}
-
-		for i := 0; i < lastArg.Len(); i++ {
-			newArgs = append(newArgs, lastArg.Index(i))
-		}
-		return f.Call(newArgs)
+		// the last argument is passed on as it is: nil stays nil, and writes to its elements are seen by the caller
+		return f.CallSlice(args)
 	} else {
 		return f.Call(args)
 	}
-- 
2.43.0


From 6308ec03c29181d8263e4d5f5b0205da10ba6939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 11/22] fix: give hooks of generic methods the receiver and the
 generic info of the call

---
 internal/monkey/inst/generic_above_1_19.go | 24 +++++++++++
 internal/monkey/inst/generic_below_1_20.go | 24 +++++++++++
 internal/monkey/inst/generic_receiver.go   | 29 +++++++++++++
 mock.go                                    | 47 +++++++++++++++++++---
 4 files changed, 118 insertions(+), 6 deletions(-)
 create mode 100644 internal/monkey/inst/generic_above_1_19.go
 create mode 100644 internal/monkey/inst/generic_below_1_20.go
 create mode 100644 internal/monkey/inst/generic_receiver.go

diff --git a/internal/monkey/inst/generic_above_1_19.go b/internal/monkey/inst/generic_above_1_19.go
new file mode 100644
index 0000000..3908e45
--- /dev/null
+++ b/internal/monkey/inst/generic_above_1_19.go
@@ -0,0 +1,24 @@
+//go:build go1.20
+// +build go1.20
+
+/*
+ * Copyright 2022 ByteDance Inc.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package inst
+
+// genericInfoAfterReceiver tells where the compiler passes the generic info (dictionary) of a method: after the receiver
+// or, like for a function, as the first argument
+const genericInfoAfterReceiver = true
diff --git a/internal/monkey/inst/generic_below_1_20.go b/internal/monkey/inst/generic_below_1_20.go
new file mode 100644
index 0000000..0cd36ac
--- /dev/null
+++ b/internal/monkey/inst/generic_below_1_20.go
@@ -0,0 +1,24 @@
+//go:build !go1.20
+// +build !go1.20
+
+/*
+ * Copyright 2022 ByteDance Inc.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package inst
+
+// genericInfoAfterReceiver tells where the compiler passes the generic info (dictionary) of a method: after the receiver
+// or, like for a function, as the first argument
+const genericInfoAfterReceiver = false
diff --git a/internal/monkey/inst/generic_receiver.go b/internal/monkey/inst/generic_receiver.go
new file mode 100644
index 0000000..5936a54
--- /dev/null
+++ b/internal/monkey/inst/generic_receiver.go
@@ -0,0 +1,29 @@
+/*
+ * Copyright 2022 ByteDance Inc.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package inst
+
+import (
+	"runtime"
+	"strings"
+)
+
+// IsReceiverFirst tells whether the generic implementation at addr takes its receiver before the generic info, i.e. it
+// is a method like "pkg.(*Type[...]).Method" and not a function like "pkg.Func[...]"
+func IsReceiverFirst(addr uintptr) bool {
+	f := runtime.FuncForPC(addr)
+	return genericInfoAfterReceiver && f != nil && !strings.HasSuffix(f.Name(), "]")
+}
diff --git a/mock.go b/mock.go
index 0500f8a..89e8e81 100644
--- a/mock.go
+++ b/mock.go
@@ -22,6 +22,7 @@ import (
 	"sync/atomic"
 
 	"github.com/bytedance/mockey/internal/monkey"
+	"github.com/bytedance/mockey/internal/monkey/inst"
 	"github.com/bytedance/mockey/internal/tool"
 )
 
@@ -100,6 +101,38 @@ func (builder *MockBuilder) hookType() reflect.Type {
 	return targetType
 }
 
+// receiverFirst tells whether the target takes its receiver before the generic info
+func (builder *MockBuilder) receiverFirst() bool {
+	return builder.generic && inst.IsReceiverFirst(inst.GetGenericJumpAddr(reflect.ValueOf(builder.target).Pointer(), 10000))
+}
+
+// codeType is hookType with the arguments in the order in which the target takes them
+func (builder *MockBuilder) codeType() reflect.Type {
+	hookType := builder.hookType()
+	if !builder.receiverFirst() {
+		return hookType
+	}
+	in, out := []reflect.Type{}, []reflect.Type{}
+	for i := 0; i < hookType.NumIn(); i++ {
+		in = append(in, hookType.In(i))
+	}
+	for i := 0; i < hookType.NumOut(); i++ {
+		out = append(out, hookType.Out(i))
+	}
+	in[0], in[1] = in[1], in[0]
+	return reflect.FuncOf(in, out, hookType.IsVariadic())
+}
+
+// argOrder converts arguments between the order of hookType and that of codeType
+func (builder *MockBuilder) argOrder() func(args []reflect.Value) []reflect.Value {
+	if !builder.receiverFirst() {
+		return func(args []reflect.Value) []reflect.Value { return args }
+	}
+	return func(args []reflect.Value) []reflect.Value {
+		return append([]reflect.Value{args[1], args[0]}, args[2:]...)
+	}
+}
+
 func (builder *MockBuilder) resetCondition() *MockBuilder {
 	builder.conditions = []*mockCondition{builder.newCondition()} // at least 1 condition is needed
 	return builder
@@ -245,11 +278,12 @@ func (mocker *Mocker) missReceiver(target reflect.Type, hook interface{}) bool {
 }
 
 func (mocker *Mocker) buildHook() {
-	proxySetter := mocker.buildProxy()
+	order := mocker.builder.argOrder()
+	proxySetter := mocker.buildProxy(order)
 
 	proxy := mocker.proxy // a call in progress keeps its proxy and hooks if the mocker is reset
 	originExec := func(args []reflect.Value) []reflect.Value {
-		return tool.ReflectCall(reflect.ValueOf(proxy).Elem(), args)
+		return tool.ReflectCall(reflect.ValueOf(proxy).Elem(), order(args))
 	}
 
 	match := []func(args []reflect.Value) bool{}
@@ -277,7 +311,8 @@ func (mocker *Mocker) buildHook() {
 		}
 	}
 
-	mockerHook := reflect.MakeFunc(mocker.builder.hookType(), func(args []reflect.Value) []reflect.Value {
+	mockerHook := reflect.MakeFunc(mocker.builder.codeType(), func(args []reflect.Value) []reflect.Value {
+		args = order(args)
 		defer proxySetter(args)() // 设置origin调用proxy
 
 		mocker.access()
@@ -307,8 +342,8 @@ func (mocker *Mocker) buildHook() {
 }
 
 // buildProx create a proxyCaller which could call origin directly
-func (mocker *Mocker) buildProxy() func(args []reflect.Value) func() {
-	proxy := reflect.New(mocker.builder.hookType())
+func (mocker *Mocker) buildProxy(order func(args []reflect.Value) []reflect.Value) func(args []reflect.Value) func() {
+	proxy := reflect.New(mocker.builder.codeType())
 
 	proxyCallerSetter := func(args []reflect.Value) func() { return func() {} }
 	mocker.origin = nil
@@ -326,7 +361,7 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) func() {
 		}
 		origin := &originHandle{handle: pElem, shift: shift, calls: make(map[int64][][]reflect.Value)}
 		origin.fn = reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
-			return tool.ReflectCall(proxy.Elem(), append(origin.leading(), innerArgs...))
+			return tool.ReflectCall(proxy.Elem(), order(append(origin.leading(), innerArgs...)))
 		})
 		proxyCallerSetter = origin.enter
 		mocker.origin = origin
-- 
2.43.0


From bd55881e82aabd4b858cd8705820f8c4db7f7bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:45 +0000
Subject: [PATCH 12/22] fix: keep the receiver of a call in progress when its
 mock is reconfigured

---
 mock.go        |  6 +++++-
 mock_origin.go | 51 +++++++++++++++++++++++++++-----------------------
 2 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/mock.go b/mock.go
index 89e8e81..5f3b9c3 100644
--- a/mock.go
+++ b/mock.go
@@ -52,6 +52,7 @@ type Mocker struct {
 type MockBuilder struct {
 	target          interface{}      // mock target
 	proxyCaller     interface{}      // origin function caller hook
+	originCalls     *originCalls     // calls whose arguments proxyCaller may need
 	conditions      []*mockCondition // mock conditions
 	filterGoroutine FilterGoroutineType
 	gId             int64
@@ -359,7 +360,10 @@ func (mocker *Mocker) buildProxy(order func(args []reflect.Value) []reflect.Valu
 		if mocker.missReceiver(mocker.target.Type(), pElem.Interface()) {
 			shift += 1
 		}
-		origin := &originHandle{handle: pElem, shift: shift, calls: make(map[int64][][]reflect.Value)}
+		if mocker.builder.originCalls == nil {
+			mocker.builder.originCalls = &originCalls{args: make(map[int64][][]reflect.Value)}
+		}
+		origin := &originHandle{handle: pElem, shift: shift, calls: mocker.builder.originCalls}
 		origin.fn = reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
 			return tool.ReflectCall(proxy.Elem(), order(append(origin.leading(), innerArgs...)))
 		})
diff --git a/mock_origin.go b/mock_origin.go
index 9e16155..8e2c886 100644
--- a/mock_origin.go
+++ b/mock_origin.go
@@ -29,17 +29,21 @@ type originHandle struct {
 	handle reflect.Value // the variable of the user
 	fn     reflect.Value // calls the target with leading arguments
 	shift  int           // number of leading arguments omitted
+	bound  bool
+	calls  *originCalls
+}
 
-	lock  sync.Mutex
-	bound bool
-	calls map[int64][][]reflect.Value // leading arguments of the calls in progress per goroutine, outermost first
-	last  []reflect.Value             // for goroutines without mocked call in progress
+// originCalls are the mocked calls in progress. They belong to the builder as they may outlive a mocker's settings
+type originCalls struct {
+	lock sync.Mutex
+	args map[int64][][]reflect.Value // arguments of the calls in progress per goroutine, outermost first
+	last []reflect.Value             // leading ones of the latest call, for goroutines without a call in progress
 }
 
 // reset is called when the mocker is patched
 func (o *originHandle) reset() {
-	o.lock.Lock()
-	defer o.lock.Unlock()
+	o.calls.lock.Lock()
+	defer o.calls.lock.Unlock()
 	o.bound = false
 	if o.shift == 0 {
 		o.bind()
@@ -55,22 +59,21 @@ func (o *originHandle) bind() {
 
 // enter is called at the beginning of a mocked call, the returned function at its end
 func (o *originHandle) enter(args []reflect.Value) func() {
-	o.lock.Lock()
-	defer o.lock.Unlock()
+	c := o.calls
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	o.bind()
-	if o.shift == 0 {
-		return func() {}
-	}
 	gId := tool.GetGoroutineID()
-	o.last = args[0:o.shift:o.shift]
-	o.calls[gId] = append(o.calls[gId], o.last)
+	c.last = append([]reflect.Value{}, args[:o.shift]...) // nothing else may be kept, it may be on the caller's stack
+	c.args[gId] = append(c.args[gId], args)
 	return func() {
-		o.lock.Lock()
-		defer o.lock.Unlock()
-		if n := len(o.calls[gId]) - 1; n > 0 {
-			o.calls[gId] = o.calls[gId][:n]
+		c.lock.Lock()
+		defer c.lock.Unlock()
+		if n := len(c.args[gId]) - 1; n > 0 {
+			c.args[gId][n] = nil
+			c.args[gId] = c.args[gId][:n]
 		} else {
-			delete(o.calls, gId)
+			delete(c.args, gId)
 		}
 	}
 }
@@ -79,10 +82,12 @@ func (o *originHandle) leading() []reflect.Value {
 	if o.shift == 0 {
 		return nil
 	}
-	o.lock.Lock()
-	defer o.lock.Unlock()
-	if calls := o.calls[tool.GetGoroutineID()]; len(calls) > 0 {
-		return calls[len(calls)-1]
+	c := o.calls
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	args := c.last
+	if calls := c.args[tool.GetGoroutineID()]; len(calls) > 0 {
+		args = calls[len(calls)-1]
 	}
-	return o.last
+	return args[0:o.shift:o.shift]
 }
-- 
2.43.0


From 6e8885b5016fc495e0b93f8460a4243ce96182ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:16 +0000
Subject: [PATCH 13/22] fix: GetMethod follows nil pointers by their type

For a nil pointer instance, or a nil embedded pointer, the promoting wrapper
was returned, which the calls of the method do not run. A value that embeds
itself through a pointer made the search endless.
---
 utils.go | 50 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/utils.go b/utils.go
index 4f6bcac..db5132d 100644
--- a/utils.go
+++ b/utils.go
@@ -102,34 +102,54 @@ func GetNestedMethod(instance interface{}, methodName string) interface{} {
 	return nil
 }
 
-func getNestedMethod(val reflect.Value, methodName string) (reflect.Method, bool) {
-	typ := val.Type()
-	kind := typ.Kind()
-	if kind == reflect.Ptr || kind == reflect.Interface {
-		val = val.Elem()
+func getNestedMethod(val reflect.Value, methodName string) (m reflect.Method, ok bool) {
+	ok = walkNested(val, methodName, nil, func(typ reflect.Type) bool {
+		m, ok = typ.MethodByName(methodName)
+		return ok
+	})
+	return m, ok
+}
+
+// walkNested offers to find the types that may provide the method methodName
+// of val, until find accepts one: those of the anonymous fields of val first,
+// then the one of val itself. The types in outer contain val.
+func walkNested(val reflect.Value, methodName string, outer []reflect.Type, find func(reflect.Type) bool) bool {
+	switch val.Kind() {
+	case reflect.Interface:
+		val, outer = val.Elem(), nil
+	case reflect.Ptr:
+		if val.IsNil() {
+			// there is no value, but its type is enough to find a method
+			val = reflect.Zero(val.Type().Elem())
+		} else {
+			val = val.Elem()
+		}
 	}
 	if !val.IsValid() {
-		return reflect.Method{}, false
+		return false
 	}
 
-	typ = val.Type()
-	kind = typ.Kind()
-	if kind == reflect.Struct {
+	typ := val.Type()
+	for _, t := range outer {
+		if t == typ {
+			// whatever this type provides, the outer one already does
+			return false
+		}
+	}
+	if typ.Kind() == reflect.Struct {
+		outer = append(outer[:len(outer):len(outer)], typ)
 		for i := 0; i < typ.NumField(); i++ {
 			if !typ.Field(i).Anonymous {
 				// there is no need to acquire non-anonymous method
 				continue
 			}
-			if m, ok := getNestedMethod(val.Field(i), methodName); ok {
-				return m, true
+			if walkNested(val.Field(i), methodName, outer, find) {
+				return true
 			}
 		}
 	}
 	// a struct receiver is prior to the corresponding pointer receiver
-	if m, ok := typ.MethodByName(methodName); ok {
-		return m, true
-	}
-	return reflect.PtrTo(typ).MethodByName(methodName)
+	return find(typ) || find(reflect.PtrTo(typ))
 }
 
 // unsafeMethodByName resolve a method from an instance, include private method.
-- 
2.43.0


From 131aee57580e54f10b0754d8fbb293ee841a65f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:18 +0000
Subject: [PATCH 14/22] fix: GetMethod only promotes the methods of an embedded
 interface

The other methods of the value held by the embedded interface were returned
too, in place of the method of that name the instance itself declares.
---
 utils.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index db5132d..05c7d66 100644
--- a/utils.go
+++ b/utils.go
@@ -139,10 +139,18 @@ func walkNested(val reflect.Value, methodName string, outer []reflect.Type, find
 	if typ.Kind() == reflect.Struct {
 		outer = append(outer[:len(outer):len(outer)], typ)
 		for i := 0; i < typ.NumField(); i++ {
-			if !typ.Field(i).Anonymous {
+			field := typ.Field(i)
+			if !field.Anonymous {
 				// there is no need to acquire non-anonymous method
 				continue
 			}
+			if field.Type.Kind() == reflect.Interface {
+				if _, ok := field.Type.MethodByName(methodName); !ok {
+					// only the methods of the interface are promoted, not
+					// the other ones of the value in it
+					continue
+				}
+			}
 			if walkNested(val.Field(i), methodName, outer, find) {
 				return true
 			}
-- 
2.43.0


From 8c94a12cec59f307de1ee18ce0ae419d468de441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:00 +0000
Subject: [PATCH 15/22] fix: find the unexported methods of types of any kind
 but maps

Only the method tables of pointers, structs, functions and interfaces were
read.
---
 internal/unsafereflect/type.go | 44 +++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/internal/unsafereflect/type.go b/internal/unsafereflect/type.go
index 821c736..1122fb2 100644
--- a/internal/unsafereflect/type.go
+++ b/internal/unsafereflect/type.go
@@ -157,6 +157,27 @@ type interfaceType struct {
 	methods []imethod // sorted by hash
 }
 
+// sliceType represents a slice type.
+type sliceType struct {
+	rtype
+	_ *rtype // unused slice element type
+}
+
+// arrayType represents a fixed array type.
+type arrayType struct {
+	rtype
+	_ *rtype  // unused array element type
+	_ *rtype  // unused slice type
+	_ uintptr // unused length
+}
+
+// chanType represents a channel type.
+type chanType struct {
+	rtype
+	_ *rtype  // unused channel element type
+	_ uintptr // unused channel direction
+}
+
 type imethod struct {
 	_ nameOff // unused name of method
 	_ typeOff // unused .(*FuncType) underneath
@@ -187,8 +208,29 @@ func (t *rtype) methods() []method {
 			structType
 			u uncommonType
 		})(unsafe.Pointer(t)).u.methods()
-	default:
+	case reflect.Slice:
+		return (*struct {
+			sliceType
+			u uncommonType
+		})(unsafe.Pointer(t)).u.methods()
+	case reflect.Array:
+		return (*struct {
+			arrayType
+			u uncommonType
+		})(unsafe.Pointer(t)).u.methods()
+	case reflect.Chan:
+		return (*struct {
+			chanType
+			u uncommonType
+		})(unsafe.Pointer(t)).u.methods()
+	case reflect.Map:
+		// its layout depends on the implementation of maps
 		return nil
+	default:
+		return (*struct {
+			rtype
+			u uncommonType
+		})(unsafe.Pointer(t)).u.methods()
 	}
 }
 
-- 
2.43.0


From a65de0a94a031024e117d894d5998b61b8ba79d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:38 +0000
Subject: [PATCH 16/22] fix: resolve unexported methods to the type that
 provides them

Only the method table of the instance itself was searched: a value receiver
method of a pointer and a promoted method resolved to a wrapper that the
calls do not run, and a pointer receiver method of a value was not found.
---
 utils.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 05c7d66..c5c67c7 100644
--- a/utils.go
+++ b/utils.go
@@ -18,6 +18,7 @@ package mockey
 
 import (
 	"reflect"
+	"runtime"
 	"unsafe"
 
 	"github.com/bytedance/mockey/internal/tool"
@@ -169,7 +170,14 @@ func walkNested(val reflect.Value, methodName string, outer []reflect.Type, find
 //	unsafeMethodByName(&bytes.Buffer{}, "empty")
 //	unsafeMethodByName(sha256.New(), "checkSum")
 func unsafeMethodByName(instance interface{}, methodName string) interface{} {
-	typ, tfn, ok := unsafereflect.MethodByName(instance, methodName)
+	var recv, typ reflect.Type
+	var tfn unsafe.Pointer
+	ok := walkNested(reflect.ValueOf(instance), methodName, nil, func(t reflect.Type) (ok bool) {
+		recv = t
+		typ, tfn, ok = unsafereflect.MethodByName(reflect.Zero(t).Interface(), methodName)
+		// the linker leaves out methods that nobody can call
+		return ok && runtime.FuncForPC(*(*uintptr)(tfn)).Name() != "runtime.unreachableMethod"
+	})
 	if !ok {
 		tool.Assert(false, "can't reflect instance method :%v", methodName)
 		return nil
@@ -183,7 +191,7 @@ func unsafeMethodByName(instance interface{}, methodName string) interface{} {
 		return nil
 	}
 
-	in := []reflect.Type{reflect.TypeOf(instance)}
+	in := []reflect.Type{recv}
 	out := []reflect.Type{}
 	for i := 0; i < typ.NumIn(); i++ {
 		in = append(in, typ.In(i))
-- 
2.43.0


From 0d6f9647e3b91393503e215817cc14e0ed56ce6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:41 +0000
Subject: [PATCH 17/22] fix: GetMethod refuses a function field that holds no
 function

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index c5c67c7..34443ef 100644
--- a/utils.go
+++ b/utils.go
@@ -66,7 +66,7 @@ func getFieldMethod(instance interface{}, fieldName string) (interface{}, bool)
 	}
 
 	field := v.FieldByName(fieldName)
-	if !field.IsValid() || field.Kind() != reflect.Func {
+	if !field.IsValid() || field.Kind() != reflect.Func || field.IsNil() {
 		return nil, false
 	}
 
-- 
2.43.0


From 281c178e547695ef485016d4ad7af6d548f8ce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:44 +0000
Subject: [PATCH 18/22] fix: GetMethod does not find wrappers of methods

When the method itself is in a table that cannot be read, that of a map type,
or is only promoted by a type that embeds the instance's own type, a wrapper
was returned, which the calls of the method do not run.
---
 utils.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/utils.go b/utils.go
index 34443ef..2b78aab 100644
--- a/utils.go
+++ b/utils.go
@@ -104,17 +104,29 @@ func GetNestedMethod(instance interface{}, methodName string) interface{} {
 }
 
 func getNestedMethod(val reflect.Value, methodName string) (m reflect.Method, ok bool) {
-	ok = walkNested(val, methodName, nil, func(typ reflect.Type) bool {
+	ok = walkNested(val, methodName, nil, func(typ reflect.Type, held bool) bool {
 		m, ok = typ.MethodByName(methodName)
-		return ok
+		return ok && (held || !isWrapper(m.Func.Pointer()))
 	})
+	if !ok {
+		m, ok = val.Type().MethodByName(methodName)
+	}
 	return m, ok
 }
 
+// isWrapper tells whether the code at pc has been generated by the compiler to
+// call a method by a pointer or through an anonymous field.
+func isWrapper(pc uintptr) bool {
+	file, _ := runtime.FuncForPC(pc).FileLine(pc)
+	return file == "<autogenerated>"
+}
+
 // walkNested offers to find the types that may provide the method methodName
 // of val, until find accepts one: those of the anonymous fields of val first,
-// then the one of val itself. The types in outer contain val.
-func walkNested(val reflect.Value, methodName string, outer []reflect.Type, find func(reflect.Type) bool) bool {
+// then the one of val itself. The types in outer contain val. A type is held if
+// it is that of a pointer in an embedded interface: its wrappers are what calls
+// run.
+func walkNested(val reflect.Value, methodName string, outer []reflect.Type, find func(typ reflect.Type, held bool) bool) bool {
 	switch val.Kind() {
 	case reflect.Interface:
 		val, outer = val.Elem(), nil
@@ -157,8 +169,11 @@ func walkNested(val reflect.Value, methodName string, outer []reflect.Type, find
 			}
 		}
 	}
+	if typ.Kind() == reflect.Ptr {
+		return find(typ, true)
+	}
 	// a struct receiver is prior to the corresponding pointer receiver
-	return find(typ) || find(reflect.PtrTo(typ))
+	return find(typ, false) || find(reflect.PtrTo(typ), false)
 }
 
 // unsafeMethodByName resolve a method from an instance, include private method.
@@ -172,11 +187,18 @@ func walkNested(val reflect.Value, methodName string, outer []reflect.Type, find
 func unsafeMethodByName(instance interface{}, methodName string) interface{} {
 	var recv, typ reflect.Type
 	var tfn unsafe.Pointer
-	ok := walkNested(reflect.ValueOf(instance), methodName, nil, func(t reflect.Type) (ok bool) {
+	ok := walkNested(reflect.ValueOf(instance), methodName, nil, func(t reflect.Type, held bool) (ok bool) {
 		recv = t
 		typ, tfn, ok = unsafereflect.MethodByName(reflect.Zero(t).Interface(), methodName)
+		if !ok {
+			return false
+		}
+		pc := *(*uintptr)(tfn)
+		if !held && isWrapper(pc) {
+			return false // calls run the method that this one wraps
+		}
 		// the linker leaves out methods that nobody can call
-		return ok && runtime.FuncForPC(*(*uintptr)(tfn)).Name() != "runtime.unreachableMethod"
+		return runtime.FuncForPC(pc).Name() != "runtime.unreachableMethod"
 	})
 	if !ok {
 		tool.Assert(false, "can't reflect instance method :%v", methodName)
-- 
2.43.0


From fb9aa04b3d8f00617093831ca13854f4cfc79213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:00 +0000
Subject: [PATCH 19/22] fix: To on an applied variable mock is what a re-mock
 is reported against

---
 mock_var.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mock_var.go b/mock_var.go
index d62d488..4a625cc 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -77,6 +77,7 @@ func (mocker *MockerVar) setHook(hook reflect.Value) {
 
 	if mocker.isPatched {
 		mocker.target.Set(hook)
+		mocker.outerCaller = tool.OuterCaller()
 	} else {
 		assertNotMocked(mocker)
 	}
-- 
2.43.0


From 37e19b3cd686548ea406fb938dd585819b49fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:26 +0000
Subject: [PATCH 20/22] fix: report a re-mock of a generic instance by the code
 it runs

Mocking an instance again through a function value made in a generic function, or mocking another instance that
shares its code, was not refused: undoing the first one first left the other's hook installed for ever.
---
 mock.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mock.go b/mock.go
index 5f3b9c3..bf4e8fe 100644
--- a/mock.go
+++ b/mock.go
@@ -46,6 +46,7 @@ type Mocker struct {
 	builder   *MockBuilder
 	origin    *originHandle // origin function set by user, may be nil
 
+	addr        uintptr // address of the code to patch
 	outerCaller tool.CallerInfo
 }
 
@@ -258,6 +259,10 @@ func (builder *MockBuilder) FilterGoRoutine(filter FilterGoroutineType, gId int6
 
 func (builder *MockBuilder) Build() *Mocker {
 	mocker := Mocker{target: reflect.ValueOf(builder.target), builder: builder}
+	mocker.addr = mocker.target.Pointer()
+	if builder.generic {
+		mocker.addr = inst.GetGenericJumpAddr(mocker.addr, 10000) // other instances and function values may run the same code
+	}
 	mocker.buildHook()
 	mocker.Patch()
 	return &mocker
@@ -487,7 +492,7 @@ func (mocker *Mocker) MockTimes() int {
 }
 
 func (mocker *Mocker) key() uintptr {
-	return mocker.target.Pointer()
+	return mocker.addr
 }
 
 func (mocker *Mocker) name() string {
-- 
2.43.0


From 7a4d1b2bd00ace5efb576d2db80c5ab49bcd11b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:23 +0000
Subject: [PATCH 21/22] fix: do not print while the world is stopped

With MOCKEY_DEBUG=true and the mockey_stw tag, printing blocked (and crashed the runtime) when another goroutine was
writing to standard output as the world was stopped.
---
 internal/monkey/mem/write.go        | 1 +
 internal/monkey/mem/write_darwin.go | 5 -----
 internal/monkey/mem/write_linux.go  | 5 -----
 3 files changed, 1 insertion(+), 10 deletions(-)

diff --git a/internal/monkey/mem/write.go b/internal/monkey/mem/write.go
index 5d71863..4d63817 100644
--- a/internal/monkey/mem/write.go
+++ b/internal/monkey/mem/write.go
@@ -25,6 +25,7 @@ import (
 // WriteWithSTW copies data bytes to the target address and replaces the original bytes, during which it will stop the
 // world (only the current goroutine's P is running).
 func WriteWithSTW(target uintptr, data []byte) {
+	tool.DebugPrintf("Write: target(0x%x), page(0x%x), len(%v)\n", target, common.PageOf(target), len(data)) // printing may block
 	ctx := stw.NewSTWCtx()
 	ctx.StopTheWorld()
 
diff --git a/internal/monkey/mem/write_darwin.go b/internal/monkey/mem/write_darwin.go
index 529a300..2f23723 100644
--- a/internal/monkey/mem/write_darwin.go
+++ b/internal/monkey/mem/write_darwin.go
@@ -18,22 +18,17 @@ package mem
 
 import (
 	"fmt"
-	"reflect"
 	"syscall"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
-	"github.com/bytedance/mockey/internal/tool"
 )
 
 func Write(target uintptr, data []byte) error {
 	targetPage := common.PageOf(target)
-	fnPage := common.PageOf(reflect.ValueOf(write).Pointer())
-	tool.DebugPrintf("Write: target page(0x%x), fn page(0x%x), len(%v)\n", targetPage, fnPage, len(data))
 	res := write(target, common.PtrOf(data), len(data), targetPage, common.PageSize(), syscall.PROT_READ|syscall.PROT_EXEC)
 	if res != 0 {
 		return fmt.Errorf("write failed, code %v", res)
 	}
-	tool.DebugPrintf("Write end(darwin)")
 	return nil
 }
 
diff --git a/internal/monkey/mem/write_linux.go b/internal/monkey/mem/write_linux.go
index cab438c..85cb171 100644
--- a/internal/monkey/mem/write_linux.go
+++ b/internal/monkey/mem/write_linux.go
@@ -18,22 +18,17 @@ package mem
 
 import (
 	"fmt"
-	"reflect"
 	"syscall"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
-	"github.com/bytedance/mockey/internal/tool"
 )
 
 func Write(target uintptr, data []byte) error {
 	targetPage := common.PageOf(target)
-	fnPage := common.PageOf(reflect.ValueOf(write).Pointer())
-	tool.DebugPrintf("Write: target page(0x%x), fn page(0x%x), len(%v)\n", targetPage, fnPage, len(data))
 	res := write(target, common.PtrOf(data), len(data), targetPage, common.PageSize(), syscall.PROT_READ|syscall.PROT_EXEC)
 	if res != 0 {
 		return fmt.Errorf("write failed, code %v", res)
 	}
-	tool.DebugPrintf("Write end(linux)")
 	return nil
 }
 
-- 
2.43.0


From e015d044d6290b385d8b9c5e904bdb270a31b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:33 +0000
Subject: [PATCH 22/22] fix: restart the world before a failed write is
 reported

A target whose page cannot be made writable left the world stopped (with the mockey_stw tag, or before Go 1.23).
---
 internal/monkey/mem/write.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/monkey/mem/write.go b/internal/monkey/mem/write.go
index 4d63817..b1c50c7 100644
--- a/internal/monkey/mem/write.go
+++ b/internal/monkey/mem/write.go
@@ -29,22 +29,22 @@ func WriteWithSTW(target uintptr, data []byte) {
 	ctx := stw.NewSTWCtx()
 	ctx.StopTheWorld()
 
+	var err error
 	begin := target
 	end := target + uintptr(len(data))
-	for begin < end {
+	for begin < end && err == nil {
 		if common.PageOf(begin) < common.PageOf(end) {
 			nextPage := common.PageOf(begin) + uintptr(common.PageSize())
 			buf := data[:nextPage-begin]
 			data = data[nextPage-begin:]
-			err := Write(begin, buf)
-			tool.Assert(err == nil, err)
+			err = Write(begin, buf)
 			begin += uintptr(len(buf))
 			continue
 		}
-		err := Write(begin, data)
-		tool.Assert(err == nil, err)
+		err = Write(begin, data)
 		break
 	}
 
 	ctx.StartTheWorld()
+	tool.Assert(err == nil, err)
 }
-- 
2.43.0

