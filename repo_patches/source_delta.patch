From 74e2deb77eb5dfa9999f9acbbe1a0a8f18a86748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 01/40] fix: complete object() fields one at a time in async
 mode

The asynchronous completion of object() ran all fields that were not
deferred through Promise.all().  Fields could therefore prompt at the
same time (nested object()s), a derived option could miss the value of a
nested asynchronous dependency source that the synchronous path resolves,
and completions kept running after a sibling had already failed.
Only adjacent derived fields still overlap.
---
 packages/core/src/constructs.ts | 65 ++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 347eeba..8ee610d 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -6514,8 +6514,9 @@ export function object<
             }
             return undefined;
           };
-          const concurrentFields: (keyof T)[] = [];
+          const fieldGroups: (keyof T)[][] = [];
           const deferredFields: (keyof T)[] = [];
+          let previousDerived = false;
           for (const field of parserKeys) {
             const fieldKey = field as string | symbol;
             const fieldParser = parsers[field];
@@ -6536,38 +6537,44 @@ export function object<
                 ) === true
             ) {
               deferredFields.push(field);
+              continue;
+            }
+            // Adjacent derived fields only replay their own value parsers, so
+            // they may overlap.  Any other field can register a dependency
+            // source for a later field or prompt interactively, so it has
+            // to run on its own, in declaration order.
+            const derived = fieldParser.dependencyMetadata?.derived != null;
+            if (derived && previousDerived) {
+              fieldGroups[fieldGroups.length - 1].push(field);
             } else {
-              concurrentFields.push(field);
+              fieldGroups.push([field]);
             }
+            previousDerived = derived;
           }
-          const concurrentResults = await Promise.all(
-            concurrentFields.map(async (field) => {
-              const fieldKey = field as string | symbol;
-              const fieldParser = parsers[field];
-              const valueResult = unwrapCompleteResult(
-                await fieldParser.complete(
-                  resolvedFieldStates[fieldKey],
-                  withChildExecPath(phase3Exec, fieldKey),
-                ),
-              );
-              return { fieldKey, valueResult } as const;
-            }),
-          );
-          for (const { fieldKey, valueResult } of concurrentResults) {
-            const failure = applyValueResult(fieldKey, valueResult);
-            if (failure != null) return failure;
-          }
-          for (const field of deferredFields) {
-            const fieldKey = field as string | symbol;
-            const fieldParser = parsers[field];
-            const valueResult = unwrapCompleteResult(
-              await fieldParser.complete(
-                resolvedFieldStates[fieldKey],
-                withChildExecPath(phase3Exec, fieldKey),
-              ),
+          for (const field of deferredFields) fieldGroups.push([field]);
+          for (const fields of fieldGroups) {
+            // Wait for the whole group even if one of its fields throws, so
+            // that no completion outlives this call.
+            const settled = await Promise.allSettled(
+              fields.map(async (field) => {
+                const fieldKey = field as string | symbol;
+                return unwrapCompleteResult(
+                  await parsers[field].complete(
+                    resolvedFieldStates[fieldKey],
+                    withChildExecPath(phase3Exec, fieldKey),
+                  ),
+                );
+              }),
             );
-            const failure = applyValueResult(fieldKey, valueResult);
-            if (failure != null) return failure;
+            for (let i = 0; i < fields.length; i++) {
+              const outcome = settled[i];
+              if (outcome.status === "rejected") throw outcome.reason;
+              const failure = applyValueResult(
+                fields[i] as string | symbol,
+                outcome.value,
+              );
+              if (failure != null) return failure;
+            }
           }
 
           const isDeferred = deferredKeys.size > 0 || hasDeferred;
-- 
2.43.0


From 6a7bd66069c46b515f29b94e631217858159abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 02/40] fix: forward dependency metadata through group() and
 nonEmpty()

A dependency source (or derived parser) wrapped in group() or nonEmpty()
was invisible to sibling derived parsers at completion time, so a derived
option was validated against the default source value even though the
source was given.
---
 packages/core/src/constructs.ts | 5 +++++
 packages/core/src/modifiers.ts  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 8ee610d..5937841 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -12787,6 +12787,11 @@ export function group<M extends Mode, TValue, TState>(
         shouldDeferCompletion: parser.shouldDeferCompletion.bind(parser),
       }
       : {}),
+    // Forward dependency metadata so that enclosing constructs treat a
+    // grouped dependency source (or derived parser) like the bare one.
+    ...(parser.dependencyMetadata != null
+      ? { dependencyMetadata: parser.dependencyMetadata }
+      : {}),
     ...(typeof parser.canSkip === "function"
       ? {
         canSkip: parser.canSkip.bind(parser),
diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index d4190ef..a4957ae 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -3365,6 +3365,11 @@ export function nonEmpty<M extends Mode, T, TState>(
         },
       }
       : {}),
+    // Forward dependency metadata so that enclosing constructs treat a
+    // wrapped dependency source (or derived parser) like the bare one.
+    ...(parser.dependencyMetadata != null
+      ? { dependencyMetadata: parser.dependencyMetadata }
+      : {}),
     // Forward shouldDeferCompletion from inner parser so that prompt()
     // can defer through nonEmpty() wrappers.
     ...(typeof parser.shouldDeferCompletion === "function"
-- 
2.43.0


From 1d1f4d340dd710479d6af468c67329097241b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:09 +0000
Subject: [PATCH 03/40] fix: deliver source annotations through group() and
 map()

---
 packages/core/src/annotation-state.ts | 20 ++++++++++++++++----
 packages/core/src/constructs.ts       |  4 ++++
 packages/core/src/internal/parser.ts  | 27 +++++++++++++++++++++++++++
 3 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/packages/core/src/annotation-state.ts b/packages/core/src/annotation-state.ts
index 6993ad8..50c8ba1 100644
--- a/packages/core/src/annotation-state.ts
+++ b/packages/core/src/annotation-state.ts
@@ -11,6 +11,7 @@ import {
   inheritParentAnnotationsKey,
   type Mode,
   type Parser,
+  unmatchedNonCliDependencySourceStateMarker,
 } from "./internal/parser.ts";
 
 /**
@@ -608,6 +609,19 @@ export function isAnnotationWrappedInitialState(state: unknown): boolean {
   return normalizeInjectedAnnotationState(state) === undefined;
 }
 
+/**
+ * Whether a child parser needs its parent's annotations injected directly into
+ * its state.  Wrappers cloned with object spread, such as `map()`, keep only
+ * the enumerable source-completion marker, yet complete from the same
+ * annotations as the source-backed parser they wrap.
+ */
+function inheritsParentAnnotations(
+  parser: Parser<Mode, unknown, unknown>,
+): boolean {
+  return Reflect.get(parser, inheritParentAnnotationsKey) === true ||
+    Reflect.get(parser, unmatchedNonCliDependencySourceStateMarker) === true;
+}
+
 /**
  * Propagates parent annotations into a child parse state when the child parser
  * explicitly opts into parent annotation inheritance.
@@ -628,8 +642,7 @@ export function getWrappedChildParseState<TState>(
   parser: Parser<Mode, unknown, unknown>,
 ): TState {
   const annotations = getAnnotations(parentState);
-  const shouldInheritAnnotations =
-    Reflect.get(parser, inheritParentAnnotationsKey) === true;
+  const shouldInheritAnnotations = inheritsParentAnnotations(parser);
   if (childState == null) {
     if (annotations !== undefined && shouldInheritAnnotations) {
       return injectAnnotations(childState, annotations);
@@ -669,8 +682,7 @@ export function getWrappedChildState<TState>(
   parser: Parser<Mode, unknown, unknown>,
 ): TState {
   const annotations = getAnnotations(parentState);
-  const shouldInheritAnnotations =
-    Reflect.get(parser, inheritParentAnnotationsKey) === true;
+  const shouldInheritAnnotations = inheritsParentAnnotations(parser);
   if (childState == null) {
     if (annotations !== undefined && shouldInheritAnnotations) {
       return injectAnnotations(childState, annotations);
diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 5937841..2c09e4c 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -77,6 +77,7 @@ import type {
 } from "./parser.ts";
 import {
   defineInheritedAnnotationParser,
+  forwardAnnotationMarkers,
   getParserSuggestRuntimeNodes,
   unmatchedNonCliDependencySourceStateMarker,
 } from "./internal/parser.ts";
@@ -12909,6 +12910,9 @@ export function group<M extends Mode, TValue, TState>(
     configurable: true,
     enumerable: false,
   });
+  // group() shares its inner parser's state, so source annotations have to
+  // reach it the same way.
+  forwardAnnotationMarkers(parser, groupParser);
   // Lazily forward placeholder from inner parser to avoid eagerly
   // evaluating derived value parser factories at construction time.
   if ("placeholder" in parser) {
diff --git a/packages/core/src/internal/parser.ts b/packages/core/src/internal/parser.ts
index e2aac28..d8c3bb2 100644
--- a/packages/core/src/internal/parser.ts
+++ b/packages/core/src/internal/parser.ts
@@ -1311,6 +1311,33 @@ export function defineSourceBindingOnlyAnnotationCompletionParser(
   });
 }
 
+/**
+ * Copies the annotation-related wrapper markers of an inner parser to a
+ * wrapper that shares the inner parser's state (e.g., `group()`),
+ * so that enclosing constructs deliver source annotations through the wrapper
+ * exactly as they would to the bare parser.
+ *
+ * @internal
+ */
+export function forwardAnnotationMarkers(
+  inner: object,
+  wrapper: object,
+): void {
+  if (Reflect.get(inner, inheritParentAnnotationsKey) === true) {
+    defineInheritedAnnotationParser(wrapper);
+  }
+  if (Reflect.get(inner, annotationWrapperRequiresSourceBindingKey) === true) {
+    defineSourceBindingOnlyAnnotationCompletionParser(wrapper);
+  }
+  if (Reflect.get(inner, unmatchedNonCliDependencySourceStateMarker) === true) {
+    Object.defineProperty(wrapper, unmatchedNonCliDependencySourceStateMarker, {
+      value: true,
+      configurable: true,
+      enumerable: true,
+    });
+  }
+}
+
 /**
  * Generates command-line suggestions based on current parsing state.
  * This function processes the input arguments up to the last argument,
-- 
2.43.0


From d6463f2025b73d03da112d7e6197971ec5c799f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 04/40] fix: load config when every required value can only
 come from config

---
 packages/config/src/index.ts | 25 +++++++++++++++++++++++++
 packages/env/src/index.ts    | 18 ++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index 7912c04..29e7c9c 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -28,6 +28,7 @@ import { getAnnotations } from "@optique/core/annotations";
 import {
   defineTraits,
   delegateSuggestNodes,
+  extractPhase2SeedKey,
   inheritAnnotations,
   injectAnnotations,
   mapModeValue,
@@ -886,6 +887,30 @@ export function bindConfig<
       return parser.getDocFragments(state, defaultValue);
     },
   };
+  // A value that only phase-two config can supply is deferred in phase one, so
+  // that parsers without any other value still reach phase two.
+  Object.defineProperty(boundParser, extractPhase2SeedKey, {
+    value(state: TState, exec?: ExecutionContext) {
+      const annotations = getAnnotations(state);
+      if (annotations?.[options.context.id] === phase1ConfigAnnotationMarker) {
+        return wrapForMode(parser.mode, {
+          value: undefined as TValue,
+          deferred: true as const,
+        });
+      }
+      const extractInnerPhase2Seed = (parser as typeof parser & {
+        readonly [extractPhase2SeedKey]?: (
+          state: TState,
+          exec?: ExecutionContext,
+        ) => ModeValue<M, unknown>;
+      })[extractPhase2SeedKey];
+      return wrapForMode(
+        parser.mode,
+        extractInnerPhase2Seed?.(getInnerState(state), exec) ?? null,
+      );
+    },
+    configurable: true,
+  });
   defineTraits(boundParser, {
     inheritsAnnotations: true,
     completesFromSource: true,
diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index ac2280b..90c4fb2 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -6,6 +6,7 @@ import {
   defineTraits,
   delegateSuggestNodes,
   dispatchByMode,
+  extractPhase2SeedKey,
   getTraits,
   inheritAnnotations,
   injectAnnotations,
@@ -883,6 +884,23 @@ export function bindEnv<
       return parser.getDocFragments(state, defaultValue);
     },
   };
+  // Forward phase-two seed extraction so that bindEnv() around a two-phase
+  // binding (e.g., bindConfig()) still reaches phase two.
+  Object.defineProperty(boundParser, extractPhase2SeedKey, {
+    value(state: TState, exec?: ExecutionContext) {
+      const extractInnerPhase2Seed = (parser as typeof parser & {
+        readonly [extractPhase2SeedKey]?: (
+          state: TState,
+          exec?: ExecutionContext,
+        ) => ModeValue<M, unknown>;
+      })[extractPhase2SeedKey];
+      return wrapForMode(
+        parser.mode,
+        extractInnerPhase2Seed?.(getInnerState(state), exec) ?? null,
+      );
+    },
+    configurable: true,
+  });
   defineTraits(boundParser, {
     inheritsAnnotations: true,
     completesFromSource: true,
-- 
2.43.0


From c9dc1db3d7c27dde6393aa5c4cc5d9cad1366941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 05/40] fix: keep command line values when a bound parser is
 tried again

---
 packages/config/src/index.ts           | 9 ++++++++-
 packages/derived-defaults/src/index.ts | 9 ++++++++-
 packages/env/src/index.ts              | 9 ++++++++-
 packages/prompt/src/index.ts           | 9 ++++++++-
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index 29e7c9c..b02a40a 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -803,6 +803,8 @@ export function bindConfig<
       // back on the next iteration.  The inner parser expects its own
       // native state, so we unwrap cliState before delegating, mirroring
       // the pattern used by bindEnv.
+      const hadCliValue = isConfigBindState(context.state) &&
+        context.state.hasCliValue;
       const innerState = isConfigBindState(context.state)
         ? (context.state.hasCliValue
           ? (context.state.cliState as TState)
@@ -821,7 +823,7 @@ export function bindConfig<
           // with consumed: [] when the CLI option is absent; treating those
           // as "CLI provided" would skip the config fallback and break
           // composition with bindEnv.
-          const cliConsumed = result.consumed.length > 0;
+          const cliConsumed = hadCliValue || result.consumed.length > 0;
           const newState = injectAnnotations({
             [configBindStateKey]: true as const,
             hasCliValue: cliConsumed,
@@ -843,6 +845,11 @@ export function bindConfig<
           return result;
         }
 
+        // A later attempt that matches nothing must not discard the value
+        // that the command line has already supplied.
+        if (hadCliValue) {
+          return { success: true, next: context, consumed: [] };
+        }
         const newState = injectAnnotations({
           [configBindStateKey]: true as const,
           hasCliValue: false,
diff --git a/packages/derived-defaults/src/index.ts b/packages/derived-defaults/src/index.ts
index 1dae2c0..46326b5 100644
--- a/packages/derived-defaults/src/index.ts
+++ b/packages/derived-defaults/src/index.ts
@@ -499,6 +499,8 @@ export function bindDerivedDefault<
     },
     parse(context) {
       const annotations = getAnnotations(context.state);
+      const hadCliValue = isBindState(context.state) &&
+        context.state.hasCliValue;
       const innerState = isBindState(context.state)
         ? (context.state.hasCliValue
           ? context.state.cliState as TState
@@ -511,7 +513,7 @@ export function bindDerivedDefault<
         result: ParserResult<TState>,
       ): ParserResult<TState> => {
         if (result.success) {
-          const cliConsumed = result.consumed.length > 0;
+          const cliConsumed = hadCliValue || result.consumed.length > 0;
           const nextState = injectAnnotations({
             [bindStateKey]: true as const,
             hasCliValue: cliConsumed,
@@ -525,6 +527,11 @@ export function bindDerivedDefault<
           };
         }
         if (result.consumed > 0) return result;
+        // A later attempt that matches nothing must not discard the value
+        // that the command line has already supplied.
+        if (hadCliValue) {
+          return { success: true, next: context, consumed: [] };
+        }
         const nextState = injectAnnotations({
           [bindStateKey]: true as const,
           hasCliValue: false,
diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index 90c4fb2..19076d7 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -793,6 +793,8 @@ export function bindEnv<
       // state and passes it back on the next iteration.  The inner
       // parser expects its own native state, so we unwrap cliState
       // before delegating.
+      const hadCliValue = isEnvBindState(context.state) &&
+        context.state.hasCliValue;
       const innerState = isEnvBindState(context.state)
         ? (context.state.hasCliValue
           ? (context.state.cliState as TState)
@@ -811,7 +813,7 @@ export function bindEnv<
           // return success with consumed: [] when the CLI option is
           // absent; treating those as "CLI provided" would skip the env
           // fallback and break composition.
-          const cliConsumed = result.consumed.length > 0;
+          const cliConsumed = hadCliValue || result.consumed.length > 0;
           const nextState = injectAnnotations({
             [envBindStateKey]: true as const,
             hasCliValue: cliConsumed,
@@ -833,6 +835,11 @@ export function bindEnv<
           return result;
         }
 
+        // A later attempt that matches nothing must not discard the value
+        // that the command line has already supplied.
+        if (hadCliValue) {
+          return { success: true, next: context, consumed: [] };
+        }
         const nextState = injectAnnotations({
           [envBindStateKey]: true as const,
           hasCliValue: false,
diff --git a/packages/prompt/src/index.ts b/packages/prompt/src/index.ts
index 09882ca..a04c10b 100644
--- a/packages/prompt/src/index.ts
+++ b/packages/prompt/src/index.ts
@@ -290,6 +290,8 @@ export function createPromptAdapter<TConfig>(
 
       parse: (context): ModeValue<"async", ParserResult<TState>> => {
         const annotations = getAnnotations(context.state);
+        const hadCliValue = isPromptBindState(context.state) &&
+          context.state.hasCliValue;
         const innerState = isPromptBindState(context.state)
           ? (context.state.hasCliValue
             ? (context.state.cliState as TState)
@@ -313,7 +315,7 @@ export function createPromptAdapter<TConfig>(
                 getAnnotations(result.next.state) !== annotations
               ? injectAnnotations(result.next.state, annotations)
               : result.next.state;
-            const cliConsumed = result.consumed.length > 0;
+            const cliConsumed = hadCliValue || result.consumed.length > 0;
             const nextState = injectAnnotations({
               [promptBindStateKey]: true as const,
               hasCliValue: cliConsumed,
@@ -331,6 +333,11 @@ export function createPromptAdapter<TConfig>(
             return result;
           }
 
+          // A later attempt that matches nothing must not discard the value
+          // that the command line has already supplied.
+          if (hadCliValue) {
+            return { success: true, next: context, consumed: [] };
+          }
           const nextState = injectAnnotations({
             [promptBindStateKey]: true as const,
             hasCliValue: false,
-- 
2.43.0


From 2c66e5ac23a9039a229893e5f87eaaa2b2a1800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 06/40] fix: deliver source annotations to the elements of a
 nested tuple()

---
 packages/core/src/constructs.ts | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 2c09e4c..6456b36 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -8643,8 +8643,9 @@ export function tuple<
             if (preCompletedResult !== undefined) {
               valueResult = unwrapCompleteResult(preCompletedResult);
             } else {
-              const elementState = prepareStateForCompletion(
-                resolvedArray[i],
+              const elementState = getParseChildState(
+                stateArray,
+                prepareStateForCompletion(resolvedArray[i], elementParser),
                 elementParser,
               );
               valueResult = unwrapCompleteResult(
@@ -8739,8 +8740,9 @@ export function tuple<
             if (preCompletedResult !== undefined) {
               valueResult = unwrapCompleteResult(preCompletedResult);
             } else {
-              const elementState = prepareStateForCompletion(
-                resolvedArray[i],
+              const elementState = getParseChildState(
+                stateArray,
+                prepareStateForCompletion(resolvedArray[i], elementParser),
                 elementParser,
               );
               valueResult = unwrapCompleteResult(
@@ -8829,16 +8831,21 @@ export function tuple<
             const elementParser = syncParsers[i];
             const childExec = withChildExecPath(phase3Exec, i);
             const preCompletedResult = preCompleted.get(String(i));
+            const elementState = getParseChildState(
+              stateArray,
+              prepareStateForCompletion(resolvedArray[i], elementParser),
+              elementParser,
+            );
             const seed = preCompletedResult !== undefined
               ? reusePreCompletedPhase2Seed(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                elementState,
                 preCompletedResult,
                 childExec,
               )
               : completeOrExtractPhase2Seed(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                elementState,
                 childExec,
               );
             if (seed == null) continue;
@@ -8912,16 +8919,21 @@ export function tuple<
             const elementParser = parsers[i];
             const childExec = withChildExecPath(phase3Exec, i);
             const preCompletedResult = preCompleted.get(String(i));
+            const elementState = getParseChildState(
+              stateArray,
+              prepareStateForCompletion(resolvedArray[i], elementParser),
+              elementParser,
+            );
             const seed = preCompletedResult !== undefined
               ? await reusePreCompletedPhase2SeedAsync(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                elementState,
                 preCompletedResult,
                 childExec,
               )
               : await completeOrExtractPhase2Seed(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                elementState,
                 childExec,
               );
             if (seed == null) continue;
-- 
2.43.0


From 03a2b91b2797a9abb74edfafa2c78bd464f1bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:03 +0000
Subject: [PATCH 07/40] fix: deliver source annotations to the elements of a
 nested concat()

---
 packages/core/src/constructs.ts | 36 +++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 6456b36..6e1fa3b 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -12267,7 +12267,11 @@ export function concat(
         ? unwrapCompleteResult(preCompletedResult)
         : unwrapCompleteResult(
           parser.complete(
-            prepareStateForCompletion(resolvedArray[i], parser),
+            getParseChildState(
+              stateArray,
+              prepareStateForCompletion(resolvedArray[i], parser),
+              parser,
+            ),
             withChildExecPath(phase3Exec, i),
           ),
         );
@@ -12377,7 +12381,11 @@ export function concat(
         ? unwrapCompleteResult(preCompletedResult)
         : unwrapCompleteResult(
           await parser.complete(
-            prepareStateForCompletion(resolvedArray[i], parser),
+            getParseChildState(
+              stateArray,
+              prepareStateForCompletion(resolvedArray[i], parser),
+              parser,
+            ),
             withChildExecPath(phase3Exec, i),
           ),
         );
@@ -12510,13 +12518,21 @@ export function concat(
             const seed = preCompletedResult !== undefined
               ? reusePreCompletedPhase2Seed(
                 parser,
-                prepareStateForCompletion(resolvedArray[i], parser),
+                getParseChildState(
+                  stateArray,
+                  prepareStateForCompletion(resolvedArray[i], parser),
+                  parser,
+                ),
                 preCompletedResult,
                 childExec,
               )
               : completeOrExtractPhase2Seed(
                 parser,
-                prepareStateForCompletion(resolvedArray[i], parser),
+                getParseChildState(
+                  stateArray,
+                  prepareStateForCompletion(resolvedArray[i], parser),
+                  parser,
+                ),
                 childExec,
               );
             if (seed == null) continue;
@@ -12582,13 +12598,21 @@ export function concat(
             const seed = preCompletedResult !== undefined
               ? await reusePreCompletedPhase2SeedAsync(
                 parser,
-                prepareStateForCompletion(resolvedArray[i], parser),
+                getParseChildState(
+                  stateArray,
+                  prepareStateForCompletion(resolvedArray[i], parser),
+                  parser,
+                ),
                 preCompletedResult,
                 childExec,
               )
               : await completeOrExtractPhase2Seed(
                 parser,
-                prepareStateForCompletion(resolvedArray[i], parser),
+                getParseChildState(
+                  stateArray,
+                  prepareStateForCompletion(resolvedArray[i], parser),
+                  parser,
+                ),
                 childExec,
               );
             if (seed == null) continue;
-- 
2.43.0


From aaceeb6fd5ba81e3521afc2a0e311d81e46a13a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:26 +0000
Subject: [PATCH 08/40] fix: keep source-backed dependency values in merge()

---
 packages/core/src/constructs.ts | 52 +++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 6e1fa3b..f9db6bb 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -10466,10 +10466,15 @@ export function merge(
           return { cache: undefined, excludedSourceFields: undefined };
         });
         collectExplicitSourceValues(
-          buildRuntimeNodesFromPairs(
-            unambiguousFieldParsers,
-            state as Record<PropertyKey, unknown>,
-            exec?.path,
+          filterPreCompletedRuntimeNodes(
+            buildRuntimeNodesFromPairs(
+              unambiguousFieldParsers,
+              state as Record<PropertyKey, unknown>,
+              exec?.path,
+            ),
+            new Set(
+              perChildPhase1.flatMap(({ cache }) => [...cache?.keys() ?? []]),
+            ),
           ),
           runtime,
         );
@@ -10613,10 +10618,15 @@ export function merge(
           }
         }
         await collectExplicitSourceValuesAsync(
-          buildRuntimeNodesFromPairs(
-            unambiguousFieldParsers,
-            state as Record<PropertyKey, unknown>,
-            exec?.path,
+          filterPreCompletedRuntimeNodes(
+            buildRuntimeNodesFromPairs(
+              unambiguousFieldParsers,
+              state as Record<PropertyKey, unknown>,
+              exec?.path,
+            ),
+            new Set(
+              perChildPhase1.flatMap(({ cache }) => [...cache?.keys() ?? []]),
+            ),
           ),
           runtime,
         );
@@ -10786,10 +10796,15 @@ export function merge(
             return { cache: undefined, excludedSourceFields: undefined };
           });
           collectExplicitSourceValues(
-            buildRuntimeNodesFromPairs(
-              unambiguousFieldParsers,
-              state as Record<PropertyKey, unknown>,
-              exec?.path,
+            filterPreCompletedRuntimeNodes(
+              buildRuntimeNodesFromPairs(
+                unambiguousFieldParsers,
+                state as Record<PropertyKey, unknown>,
+                exec?.path,
+              ),
+              new Set(
+                perChildPhase1.flatMap(({ cache }) => [...cache?.keys() ?? []]),
+              ),
             ),
             runtime,
           );
@@ -10923,10 +10938,15 @@ export function merge(
             }
           }
           await collectExplicitSourceValuesAsync(
-            buildRuntimeNodesFromPairs(
-              unambiguousFieldParsers,
-              state as Record<PropertyKey, unknown>,
-              exec?.path,
+            filterPreCompletedRuntimeNodes(
+              buildRuntimeNodesFromPairs(
+                unambiguousFieldParsers,
+                state as Record<PropertyKey, unknown>,
+                exec?.path,
+              ),
+              new Set(
+                perChildPhase1.flatMap(({ cache }) => [...cache?.keys() ?? []]),
+              ),
             ),
             runtime,
           );
-- 
2.43.0


From 5dd33a86607cb9407485e6c3b11a05f61e1f411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:49 +0000
Subject: [PATCH 09/40] fix: use the default of an absent dependency source in
 an annotated tuple()

---
 packages/core/src/constructs.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index f9db6bb..a8d0c69 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -2,6 +2,7 @@ import {
   annotationViewTargets,
   getWrappedChildParseState as getParseChildState,
   getWrappedChildState as getAnnotatedChildState,
+  isAnnotationWrappedInitialState,
   reconcileObjectChildState,
   unwrapAnnotationView,
 } from "./annotation-state.ts";
@@ -163,7 +164,9 @@ function isUnmatchedDependencyState(
     readonly [unmatchedNonCliDependencySourceStateMarker]?: true;
   },
 ): boolean {
-  if (state === undefined) return true;
+  // Array children carry inherited annotations in a wrapper around the state
+  // of an option that was not provided.
+  if (isAnnotationWrappedInitialState(state)) return true;
   if (
     Array.isArray(state) &&
     state.length === 1 &&
-- 
2.43.0


From 2538dfabd7970f8eaf6ad441bb70719d47d0b21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:13 +0000
Subject: [PATCH 10/40] fix: treat only a missing config file itself as an
 absent config

---
 packages/config/src/index.ts | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index b02a40a..e5ccbd8 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -537,9 +537,18 @@ export function createConfigContext<T, TConfigMeta = ConfigMeta>(
           configPath: absoluteConfigPath,
         };
 
+        let contents: Uint8Array;
         try {
-          const contents = readFileSync(absoluteConfigPath);
+          contents = readFileSync(absoluteConfigPath);
+        } catch (error) {
+          // Missing config file is optional in single-file mode.
+          if (isErrnoException(error) && error.code === "ENOENT") {
+            return emptyAnnotations();
+          }
+          throw error;
+        }
 
+        try {
           // Parse file contents
           let rawData: unknown;
           if (rawFileParser) {
@@ -555,10 +564,6 @@ export function createConfigContext<T, TConfigMeta = ConfigMeta>(
             singleFileMeta as TConfigMeta,
           );
         } catch (error) {
-          // Missing config file is optional in single-file mode.
-          if (isErrnoException(error) && error.code === "ENOENT") {
-            return emptyAnnotations();
-          }
           if (error instanceof SyntaxError) {
             throw new Error(
               `Failed to parse config file ` +
-- 
2.43.0


From 97a44dc5a430720264af1a5768153ff00ab0724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:26 +0000
Subject: [PATCH 11/40] fix: wait for running derived-default resolvers when
 one fails

---
 packages/derived-defaults/src/index.ts | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/packages/derived-defaults/src/index.ts b/packages/derived-defaults/src/index.ts
index 46326b5..218e70e 100644
--- a/packages/derived-defaults/src/index.ts
+++ b/packages/derived-defaults/src/index.ts
@@ -235,7 +235,16 @@ export function createDerivedDefaults<const TResolvers extends object>(
         if (request.parsed == null && resolver.length > 0) {
           continue;
         }
-        const resolved = resolver(request.parsed ?? undefined);
+        let resolved: unknown;
+        try {
+          resolved = resolver(request.parsed ?? undefined);
+        } catch (error) {
+          if (pending.length === 0) throw error;
+          // Resolvers called earlier are still running.
+          return Promise.allSettled(pending).then(() => {
+            throw error;
+          });
+        }
         if (isPromiseLike(resolved)) {
           pending.push(
             Promise.resolve(resolved).then((value) => {
@@ -255,7 +264,9 @@ export function createDerivedDefaults<const TResolvers extends object>(
         };
       return pending.length === 0
         ? buildAnnotations()
-        : Promise.all(pending).then(buildAnnotations);
+        : Promise.allSettled(pending)
+          .then(() => Promise.all(pending))
+          .then(buildAnnotations);
     },
     [Symbol.dispose]() {
       // No-op. Derived-default annotations are detached parse-time snapshots.
-- 
2.43.0


From cdd95b7abc583c5c5f70521e7c6b85a288e05c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:53 +0000
Subject: [PATCH 12/40] fix: treat only a missing .env file itself as an absent
 file

---
 packages/env/src/index.ts | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index 19076d7..da388d4 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -518,20 +518,21 @@ function loadEnvFileValues(
   const values = new Map<string, string>();
   for (const path of options.paths) {
     const absolutePath = resolvePath(path);
+    let contents: string;
     try {
-      const contents = readFileSync(absolutePath, "utf8");
-      const parsedValues = parseEnvFile(
-        contents,
-        absolutePath,
-        source,
-        options.substitute,
-        values,
-      );
-      for (const [key, value] of parsedValues) values.set(key, value);
+      contents = readFileSync(absolutePath, "utf8");
     } catch (error) {
       if (isErrnoException(error) && error.code === "ENOENT") continue;
       throw error;
     }
+    const parsedValues = parseEnvFile(
+      contents,
+      absolutePath,
+      source,
+      options.substitute,
+      values,
+    );
+    for (const [key, value] of parsedValues) values.set(key, value);
   }
   return values;
 }
-- 
2.43.0


From e35a915ca1654259f7290c9cdcca43dadb590233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:58 +0000
Subject: [PATCH 13/40] fix: deliver source annotations through map() over
 alternatives and structures

---
 packages/core/src/modifiers.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index a4957ae..4fcd483 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -36,6 +36,7 @@ import type { Phase2Seed } from "./phase2-seed.ts";
 import {
   defineInheritedAnnotationParser,
   defineSourceBindingOnlyAnnotationCompletionParser,
+  inheritParentAnnotationsKey,
   unmatchedNonCliDependencySourceStateMarker,
 } from "./internal/parser.ts";
 import type {
@@ -1751,6 +1752,15 @@ export function map<M extends Mode, T, U, TState>(
         composed;
     }
   }
+  // map() shares the state of the structure it wraps, so it has to receive the
+  // enclosing construct's annotations like that structure does.  Source-backed
+  // parsers need no marker here: their enumerable one survives the spread.
+  if (
+    Reflect.get(parser, inheritParentAnnotationsKey) === true &&
+    Reflect.get(parser, unmatchedNonCliDependencySourceStateMarker) !== true
+  ) {
+    defineInheritedAnnotationParser(mappedParser);
+  }
   return fluent(mappedParser);
 }
 
-- 
2.43.0


From 2d19eeaef11851201f1c9dc7c8c3e633de5e20f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:44 +0000
Subject: [PATCH 14/40] fix: keep the probe phase when conditional() completes
 its branch

---
 packages/core/src/constructs.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index a8d0c69..8262fb6 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -14342,10 +14342,10 @@ export function conditional(
     const completionExec: ExecutionContext = {
       ...(exec ?? {
         usage: branchParser.usage,
+        phase: "complete",
         path: [],
         trace: undefined,
       }),
-      phase: "complete",
       dependencyRuntime: runtime,
       dependencyRegistry: runtime.registry,
     };
@@ -14664,10 +14664,10 @@ export function conditional(
     const completionExec: ExecutionContext = {
       ...(exec ?? {
         usage: branchParser.usage,
+        phase: "complete",
         path: [],
         trace: undefined,
       }),
-      phase: "complete",
       dependencyRuntime: runtime,
       dependencyRegistry: runtime.registry,
     };
-- 
2.43.0


From 07ee6a682b7a56a9fd9b9ef54d96bf9f377ee75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:29 +0000
Subject: [PATCH 15/40] fix: report unreadable command symlinks instead of
 dropping the command

---
 packages/discover/src/generator.ts | 14 ++++++++++++--
 packages/discover/src/index.ts     | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/packages/discover/src/generator.ts b/packages/discover/src/generator.ts
index 8a02e35..65cdc81 100644
--- a/packages/discover/src/generator.ts
+++ b/packages/discover/src/generator.ts
@@ -439,11 +439,21 @@ async function getCommandFileEntryType(
     if (target.isDirectory()) return "directory";
     if (target.isFile()) return "file";
     return undefined;
-  } catch {
-    return undefined;
+  } catch (error) {
+    if (isBrokenLinkError(error)) return undefined;
+    throw error;
   }
 }
 
+/**
+ * Whether a symbolic link could not be followed because it has no target.
+ * Any other failure must not make a command silently disappear.
+ */
+function isBrokenLinkError(error: unknown): boolean {
+  const code = (error as { readonly code?: unknown } | null | undefined)?.code;
+  return code === "ENOENT" || code === "ENOTDIR" || code === "ELOOP";
+}
+
 function isDeclarationFile(fileName: string): boolean {
   return /\.d\.[cm]?ts$/.test(fileName);
 }
diff --git a/packages/discover/src/index.ts b/packages/discover/src/index.ts
index 11f0974..58e6440 100644
--- a/packages/discover/src/index.ts
+++ b/packages/discover/src/index.ts
@@ -879,11 +879,21 @@ async function getCommandFileEntryType(
     if (target.isDirectory()) return "directory";
     if (target.isFile()) return "file";
     return undefined;
-  } catch {
-    return undefined;
+  } catch (error) {
+    if (isBrokenLinkError(error)) return undefined;
+    throw error;
   }
 }
 
+/**
+ * Whether a symbolic link could not be followed because it has no target.
+ * Any other failure must not make a command silently disappear.
+ */
+function isBrokenLinkError(error: unknown): boolean {
+  const code = (error as { readonly code?: unknown } | null | undefined)?.code;
+  return code === "ENOENT" || code === "ENOTDIR" || code === "ELOOP";
+}
+
 function isDeclarationFile(fileName: string): boolean {
   return /\.d\.[cm]?ts$/.test(fileName);
 }
-- 
2.43.0


From d4030e7a632f0bb78284f0f9fff3755ad628d703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:47 +0000
Subject: [PATCH 16/40] fix: rewrite the generated module after a failed write
 in watch mode

---
 packages/discover/src/generator.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/discover/src/generator.ts b/packages/discover/src/generator.ts
index 65cdc81..f95478e 100644
--- a/packages/discover/src/generator.ts
+++ b/packages/discover/src/generator.ts
@@ -206,6 +206,9 @@ export async function watchCommandsModule(
       const signature = files.map((file) => file.filePath).join("\0");
       if (signature !== previousSignature) {
         const result = generateCommandsModuleFromFiles(normalized, files);
+        // Until the write completes, the output matches no known signature:
+        // a failed or partial write has to be repaired by the next poll.
+        previousSignature = undefined;
         await mkdir(dirname(normalized.outputFile), { recursive: true });
         await writeFile(normalized.outputFile, result.code, "utf-8");
         options.onGenerate?.(result);
-- 
2.43.0


From a7ad45d5404962c64c8d66a88c86e8607340737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:01 +0000
Subject: [PATCH 17/40] fix: show help for a command over alternatives when
 contexts are active

---
 packages/core/src/constructs.ts | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 8262fb6..a6a232f 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -4033,14 +4033,20 @@ export function or(
       let footer: Message | undefined;
       let fragments: readonly DocFragment[];
 
-      if (state.kind === "unavailable" || state.state == null) {
+      // Under a context run, a command() hands its child an annotation-wrapped
+      // initial state, so "no branch selected yet" must be recognized after
+      // normalization rather than by comparing with undefined.
+      const activeState = state.kind === "available"
+        ? normalizeExclusiveState(state.state)
+        : undefined;
+      if (activeState == null) {
         // When state is unavailable or null, show all parser options
         fragments = parsers.flatMap((p) =>
           p.getDocFragments({ kind: "unavailable" }, undefined).fragments
         );
       } else {
         // When state is available and has a value, show only the selected parser
-        const [index, parserResult] = state.state;
+        const [index, parserResult] = activeState;
         const innerState: DocState<unknown> = parserResult.success
           ? { kind: "available", state: parserResult.next.state }
           : { kind: "unavailable" };
@@ -4054,11 +4060,11 @@ export function or(
         fragments = docFragments.fragments;
       }
       // When a single branch matched successfully, pass its fragments
-      // Only deduplicate when showing all branches.  When state.state is
-      // set, fragments come from a single branch (whether successful or
+      // Only deduplicate when showing all branches.  When a branch is
+      // active, fragments come from a single branch (whether successful or
       // failed), so cross-branch dedup does not apply and would collapse
       // intentional duplicates (e.g., allowDuplicates).
-      if (state.kind === "unavailable" || state.state == null) {
+      if (activeState == null) {
         fragments = deduplicateDocFragments(fragments);
       }
       return {
@@ -4622,14 +4628,18 @@ function createLongestMatch(
       let fragments: readonly DocFragment[];
 
       let shouldDeduplicate: boolean;
-      if (state.kind === "unavailable" || state.state == null) {
+      // See or(): the initial state may be annotation-wrapped.
+      const activeState = state.kind === "available"
+        ? normalizeExclusiveState(state.state)
+        : undefined;
+      if (activeState == null) {
         // When state is unavailable or null, show all parser options
         fragments = parsers.flatMap((p) =>
           p.getDocFragments({ kind: "unavailable" }).fragments
         );
         shouldDeduplicate = true;
       } else {
-        const [i, result] = state.state;
+        const [i, result] = activeState;
         if (result.success) {
           const docResult = parsers[i].getDocFragments(
             { kind: "available", state: result.next.state },
-- 
2.43.0


From af5f4bba7712046845d3933594b25eb050b50b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:23 +0000
Subject: [PATCH 18/40] fix: keep context annotations for children of
 executable discovered commands

---
 packages/discover/src/index.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/discover/src/index.ts b/packages/discover/src/index.ts
index 58e6440..066d3db 100644
--- a/packages/discover/src/index.ts
+++ b/packages/discover/src/index.ts
@@ -7,6 +7,7 @@ import type { DocState } from "@optique/core/parser";
 import type { DocFragment, DocFragments } from "@optique/core/doc";
 import type { RuntimeNode } from "@optique/core/dependency-runtime";
 import {
+  defineTraits,
   dispatchByMode,
   inheritAnnotations,
   mapModeValue,
@@ -1290,6 +1291,7 @@ function createExecutableNodeParser(
       return fragments;
     },
   };
+  defineTraits(executableParser, { inheritsAnnotations: true });
   if (phase2SeedHook != null) {
     Object.defineProperty(executableParser, phase2SeedHook.key, {
       value(state: unknown, exec?: ExecutionContext) {
-- 
2.43.0


From 74ec358f5c52ecc1ec3374e948f7ccefcd99dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:21 +0000
Subject: [PATCH 19/40] fix: report a path that disappears during validation as
 not found

---
 packages/run/src/valueparser.ts | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/packages/run/src/valueparser.ts b/packages/run/src/valueparser.ts
index 600a5ec..7579ce8 100644
--- a/packages/run/src/valueparser.ts
+++ b/packages/run/src/valueparser.ts
@@ -5,7 +5,7 @@ import {
 } from "@optique/core/nonempty";
 import type { Suggestion } from "@optique/core/parser";
 import type { ValueParser, ValueParserResult } from "@optique/core/valueparser";
-import { existsSync, statSync } from "node:fs";
+import { existsSync, type Stats, statSync } from "node:fs";
 import { basename, dirname, extname } from "node:path";
 
 /**
@@ -371,19 +371,25 @@ export function path(options: PathOptions = {}): ValueParser<"sync", string> {
 
       // Existence validation (mustExist)
       if (mustExist) {
-        if (!existsSync(input)) {
-          return {
-            success: false,
-            error: options.errors?.pathNotFound
-              ? (typeof options.errors.pathNotFound === "function"
-                ? options.errors.pathNotFound(input)
-                : options.errors.pathNotFound)
-              : message`Path ${text(input)} does not exist.`,
-          };
-        }
+        const notFound = (): ValueParserResult<string> => ({
+          success: false,
+          error: options.errors?.pathNotFound
+            ? (typeof options.errors.pathNotFound === "function"
+              ? options.errors.pathNotFound(input)
+              : options.errors.pathNotFound)
+            : message`Path ${text(input)} does not exist.`,
+        });
+        if (!existsSync(input)) return notFound();
 
         // Type validation
-        const stats = statSync(input);
+        let stats: Stats;
+        try {
+          stats = statSync(input);
+        } catch {
+          // The path may be removed or become inaccessible between the two
+          // calls.
+          return notFound();
+        }
         if (type === "file" && !stats.isFile()) {
           return {
             success: false,
-- 
2.43.0


From dcc682ae87fb75d0a52ae72d76becfad05def9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:44 +0000
Subject: [PATCH 20/40] fix: resolve git references and SHAs to existing
 commits only

---
 packages/git/src/index.ts | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/packages/git/src/index.ts b/packages/git/src/index.ts
index df2e0b5..08bbaab 100644
--- a/packages/git/src/index.ts
+++ b/packages/git/src/index.ts
@@ -253,6 +253,19 @@ function listFailureMessage(
   return fallback;
 }
 
+/**
+ * Resolves an object to the commit it names, following annotated tags.
+ *
+ * @param dir The repository directory.
+ * @param oid The full object ID to resolve.
+ * @returns The commit OID.
+ * @throws {Error} If the object is missing or is not a commit.
+ */
+async function peelToCommit(dir: string, oid: string): Promise<string> {
+  const commit = await git.readCommit({ fs: gitFs, dir, oid });
+  return commit.oid;
+}
+
 /** Default depth for commit suggestions. */
 const DEFAULT_SUGGESTION_DEPTH = 15;
 
@@ -718,7 +731,7 @@ export function gitCommit(
 
       try {
         const oid = await git.expandOid({ fs: gitFs, dir, oid: input });
-        return { success: true, value: oid };
+        return { success: true, value: await peelToCommit(dir, oid) };
       } catch (e) {
         if (
           hasErrorCode(e, "AmbiguousShortOidError") ||
@@ -792,7 +805,8 @@ export function gitRef(
     async (dir, input, errors) => {
       let resolved: string | undefined;
       try {
-        resolved = await git.resolveRef({ fs: gitFs, dir, ref: input });
+        const oid = await git.resolveRef({ fs: gitFs, dir, ref: input });
+        resolved = await peelToCommit(dir, oid);
       } catch {
         // Not a branch or tag, will try as a commit SHA.
       }
@@ -803,7 +817,7 @@ export function gitRef(
 
       try {
         const oid = await git.expandOid({ fs: gitFs, dir, oid: input });
-        return { success: true, value: oid };
+        return { success: true, value: await peelToCommit(dir, oid) };
       } catch (e) {
         if (
           hasErrorCode(e, "AmbiguousShortOidError") ||
-- 
2.43.0


From 29e4a01e3bfc7f8169f9194717c6e15379e51a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:44 +0000
Subject: [PATCH 21/40] fix: suggest each commit once for merged histories

---
 packages/git/src/index.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/git/src/index.ts b/packages/git/src/index.ts
index 08bbaab..5ca3b71 100644
--- a/packages/git/src/index.ts
+++ b/packages/git/src/index.ts
@@ -764,7 +764,11 @@ export function gitCommit(
           matching.map((c) => c.oid),
           minLen,
         );
+        const seen = new Set<string>();
         for (const commit of matching) {
+          // The log reaches a commit once per path of a merged history.
+          if (seen.has(commit.oid)) continue;
+          seen.add(commit.oid);
           const shortOid = shortOids.get(commit.oid)!;
           const firstLine = commit.commit.message.split("\n")[0];
           yield {
-- 
2.43.0


From 85a3c16f1bc6076a825d9498a7713f26dc16ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:16 +0000
Subject: [PATCH 22/40] fix: exclude the generated module when it is reached
 through a symbolic link

---
 packages/discover/src/generator.ts | 45 +++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/packages/discover/src/generator.ts b/packages/discover/src/generator.ts
index f95478e..cb85085 100644
--- a/packages/discover/src/generator.ts
+++ b/packages/discover/src/generator.ts
@@ -1,5 +1,5 @@
 import { mkdir, readdir, realpath, stat, writeFile } from "node:fs/promises";
-import { dirname, posix, relative, resolve } from "node:path";
+import { basename, dirname, posix, relative, resolve } from "node:path";
 import { fileURLToPath } from "node:url";
 import { getDefaultExtensions } from "./index.ts";
 
@@ -232,7 +232,7 @@ async function collectGeneratedCommandFiles(
   const filePaths = await collectCommandFiles(
     options.dir,
     options.extensions,
-    options.outputFile,
+    await canonicalOutputFile(options),
   );
   if (filePaths.length < 1) {
     if (collectOptions.allowEmpty === true) return [];
@@ -386,6 +386,29 @@ function normalizeEntryFileName(
   return entryFileName;
 }
 
+/**
+ * Returns the file the output is actually written to, so that it is recognized
+ * when the command directory reaches it through a symbolic link.
+ */
+async function canonicalOutputFile(
+  options: NormalizedGenerateOptions,
+): Promise<string> {
+  try {
+    return await realpath(options.outputFile);
+  } catch (error) {
+    if (!isBrokenLinkError(error)) throw error;
+  }
+  try {
+    return resolve(
+      await realpath(options.outputDir),
+      basename(options.outputFile),
+    );
+  } catch (error) {
+    if (!isBrokenLinkError(error)) throw error;
+  }
+  return options.outputFile;
+}
+
 async function collectCommandFiles(
   dir: string,
   extensions: readonly string[],
@@ -415,10 +438,10 @@ async function collectCommandFiles(
       );
     } else if (
       entryType === "file" &&
-      path !== excludedFile &&
       !isDeclarationFile(entry.name) &&
       !isTestFile(entry.name, extensions) &&
-      extensions.some((ext) => entry.name.endsWith(ext))
+      extensions.some((ext) => entry.name.endsWith(ext)) &&
+      await getCanonicalPath(path, canonicalDir, entry) !== excludedFile
     ) {
       files.push(path);
     }
@@ -426,6 +449,20 @@ async function collectCommandFiles(
   return files;
 }
 
+async function getCanonicalPath(
+  path: string,
+  canonicalDir: string,
+  entry: { readonly name: string; isSymbolicLink(): boolean },
+): Promise<string> {
+  if (!entry.isSymbolicLink()) return resolve(canonicalDir, entry.name);
+  try {
+    return await realpath(path);
+  } catch (error) {
+    if (isBrokenLinkError(error)) return path;
+    throw error;
+  }
+}
+
 async function getCommandFileEntryType(
   path: string,
   entry: {
-- 
2.43.0


From 15ed72704fb26b5fbb9dbba4fc2177fcd1369ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:23 +0000
Subject: [PATCH 23/40] fix: let multiple() extend a matched command behind
 or() and group()

An item whose command is selected through or() or group() was closed as soon
as its remaining options could be skipped, for instance because an environment
variable supplied them, so that its options were rejected.
---
 packages/core/src/constructs.ts |  13 +++
 packages/core/src/modifiers.ts  | 174 ++++++++++++++++++++------------
 2 files changed, 124 insertions(+), 63 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index a6a232f..c52f591 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -3989,6 +3989,15 @@ export function or(
     leadingNames: unionLeadingNames(parsers),
     acceptingAnyToken: parsers.some((p) => p.acceptingAnyToken),
     initialState: undefined,
+    // Lets wrappers such as multiple() look at the selected alternative.
+    [Symbol.for("@optique/core/activeBranch")](state: OrState) {
+      const activeState = normalizeExclusiveState(state);
+      if (activeState == null) return undefined;
+      const [index, result] = activeState;
+      return result.success
+        ? { parser: parsers[index], state: result.next.state }
+        : undefined;
+    },
     canSkip(state: OrState, exec?: ExecutionContext) {
       const activeState = normalizeExclusiveState(state);
       if (activeState != null) {
@@ -12867,6 +12876,10 @@ export function group<M extends Mode, TValue, TState>(
         canSkip: parser.canSkip.bind(parser),
       }
       : {}),
+    [Symbol.for("@optique/core/activeBranch")]: (state: TState) => ({
+      parser,
+      state,
+    }),
     getSuggestRuntimeNodes(state: TState, path: readonly PropertyKey[]) {
       return parser.getSuggestRuntimeNodes?.(state, path) ??
         (parser.dependencyMetadata?.source != null
diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index 4fcd483..2a24aab 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -62,6 +62,15 @@ function isMatchedCommandParserState(
   parser: Parser<Mode, unknown, unknown>,
   state: unknown,
 ): boolean {
+  const getActiveBranch = Reflect.get(
+    parser,
+    Symbol.for("@optique/core/activeBranch"),
+  );
+  if (typeof getActiveBranch === "function") {
+    const branch = getActiveBranch(unwrapMultipleItemState(state).value);
+    return branch != null &&
+      isMatchedCommandParserState(branch.parser, branch.state);
+  }
   if (Reflect.get(parser, Symbol.for("@optique/core/commandParser")) !== true) {
     return false;
   }
@@ -2286,6 +2295,16 @@ export function multiple<M extends Mode, TValue, TState>(
       parser.canSkip?.(state, withChildExecPath(exec, itemIndex)) !== true
     );
 
+  // A matched command whose remaining terms are all optional can be extended,
+  // but it can be followed by a fresh item as well.
+  const canFollowExtensibleItem = (
+    state: TState,
+    itemIndex: number,
+    exec: ExecutionContext | undefined,
+  ): boolean =>
+    itemIndex + 1 < max &&
+    parser.canSkip?.(state, withChildExecPath(exec, itemIndex)) === true;
+
   // Sync parse implementation
   const parseSync = (
     context: ParserContext<MultipleState>,
@@ -2321,8 +2340,18 @@ export function multiple<M extends Mode, TValue, TState>(
     );
     if (!result.success) {
       // Failures that consumed input must propagate so callers see the
-      // real error depth (e.g., a mid-item validation failure).
-      if (result.consumed !== 0) {
+      // real error depth (e.g., a mid-item validation failure), unless the
+      // input may belong to a fresh item.
+      const { consumed: failedAfter, error: extensionError } = result;
+      if (
+        failedAfter !== 0 &&
+        !(canExtendCurrent &&
+          canFollowExtensibleItem(
+            currentItemState as TState,
+            currentItemIndex,
+            context.exec,
+          ))
+      ) {
         return result;
       }
       if (!added && canOpenFreshItem) {
@@ -2355,7 +2384,11 @@ export function multiple<M extends Mode, TValue, TState>(
           ) {
             return { success: true, next: context, consumed: [] };
           }
-          return result;
+          return failedAfter === 0 ? result : {
+            success: false,
+            consumed: failedAfter,
+            error: extensionError,
+          };
         }
         added = true;
       } else if (min === 0 && context.buffer.length === 0) {
@@ -2488,8 +2521,18 @@ export function multiple<M extends Mode, TValue, TState>(
     );
     if (!result.success) {
       // Failures that consumed input must propagate so callers see the
-      // real error depth (e.g., a mid-item validation failure).
-      if (result.consumed !== 0) {
+      // real error depth (e.g., a mid-item validation failure), unless the
+      // input may belong to a fresh item.
+      const { consumed: failedAfter, error: extensionError } = result;
+      if (
+        failedAfter !== 0 &&
+        !(canExtendCurrent &&
+          canFollowExtensibleItem(
+            currentItemState as TState,
+            currentItemIndex,
+            context.exec,
+          ))
+      ) {
         return result;
       }
       if (!added && canOpenFreshItem) {
@@ -2522,7 +2565,11 @@ export function multiple<M extends Mode, TValue, TState>(
           ) {
             return { success: true, next: context, consumed: [] };
           }
-          return result;
+          return failedAfter === 0 ? result : {
+            success: false,
+            consumed: failedAfter,
+            error: extensionError,
+          };
         }
         added = true;
       } else if (min === 0 && context.buffer.length === 0) {
@@ -2833,11 +2880,22 @@ export function multiple<M extends Mode, TValue, TState>(
           context.state,
           parser.initialState,
         );
-      const suggestFallbackState = unwrapInjectedWrapper(
-        suggestInitialState,
-      ) as TState;
-      const hasSuggestFallbackState = suggestFallbackState !==
-        suggestInitialState;
+      const suggestTargets: readonly (readonly [number, TState])[] = [
+        [itemIndex, suggestInitialState as TState],
+        ...(canExtendCurrent &&
+            canFollowExtensibleItem(
+              currentItemState as TState,
+              currentItemIndex,
+              context.exec,
+            )
+          ? [
+            [
+              context.state.length,
+              inheritAnnotations(context.state, parser.initialState),
+            ] as const,
+          ]
+          : []),
+      ];
       const collectSelectedValuesSync = () => {
         const selectedValues = new Set<string>();
         for (let i = 0; i < context.state.length; i++) {
@@ -2918,33 +2976,28 @@ export function multiple<M extends Mode, TValue, TState>(
               }
             }
           };
-          let shouldTryFallback = false;
-          try {
-            yield* yieldUnique(
-              syncParser.suggest(
-                withChildContext(
-                  context,
-                  itemIndex,
-                  suggestInitialState as TState,
+          for (const [targetIndex, targetState] of suggestTargets) {
+            const fallbackState = unwrapInjectedWrapper(targetState) as TState;
+            let shouldTryFallback = false;
+            try {
+              yield* yieldUnique(
+                syncParser.suggest(
+                  withChildContext(context, targetIndex, targetState),
+                  prefix,
                 ),
-                prefix,
-              ),
-            );
-          } catch (error) {
-            if (!hasSuggestFallbackState) throw error;
-            shouldTryFallback = true;
-          }
-          if (shouldTryFallback) {
-            yield* yieldUnique(
-              syncParser.suggest(
-                withChildContext(
-                  context,
-                  itemIndex,
-                  suggestFallbackState,
+              );
+            } catch (error) {
+              if (fallbackState === targetState) throw error;
+              shouldTryFallback = true;
+            }
+            if (shouldTryFallback) {
+              yield* yieldUnique(
+                syncParser.suggest(
+                  withChildContext(context, targetIndex, fallbackState),
+                  prefix,
                 ),
-                prefix,
-              ),
-            );
+              );
+            }
           }
         },
         async function* () {
@@ -2961,33 +3014,28 @@ export function multiple<M extends Mode, TValue, TState>(
               }
             }
           };
-          let shouldTryFallback = false;
-          try {
-            yield* yieldUnique(
-              parser.suggest(
-                withChildContext(
-                  context,
-                  itemIndex,
-                  suggestInitialState as TState,
-                ),
-                prefix,
-              ) as AsyncIterable<Suggestion>,
-            );
-          } catch (error) {
-            if (!hasSuggestFallbackState) throw error;
-            shouldTryFallback = true;
-          }
-          if (shouldTryFallback) {
-            yield* yieldUnique(
-              parser.suggest(
-                withChildContext(
-                  context,
-                  itemIndex,
-                  suggestFallbackState,
-                ),
-                prefix,
-              ) as AsyncIterable<Suggestion>,
-            );
+          for (const [targetIndex, targetState] of suggestTargets) {
+            const fallbackState = unwrapInjectedWrapper(targetState) as TState;
+            let shouldTryFallback = false;
+            try {
+              yield* yieldUnique(
+                parser.suggest(
+                  withChildContext(context, targetIndex, targetState),
+                  prefix,
+                ) as AsyncIterable<Suggestion>,
+              );
+            } catch (error) {
+              if (fallbackState === targetState) throw error;
+              shouldTryFallback = true;
+            }
+            if (shouldTryFallback) {
+              yield* yieldUnique(
+                parser.suggest(
+                  withChildContext(context, targetIndex, fallbackState),
+                  prefix,
+                ) as AsyncIterable<Suggestion>,
+              );
+            }
           }
         },
       );
-- 
2.43.0


From 83535cbbc2d3c081017876a9e125f3dc7f6b4c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:14 +0000
Subject: [PATCH 24/40] fix: keep context annotations when a bound parser is
 tried again

A bound parser that the command line did not match handed its inner parser a
state without annotations on the next attempt, so that interleaved arguments
in nested tuples lost the value of an inner source.
---
 packages/config/src/index.ts           | 6 +++++-
 packages/derived-defaults/src/index.ts | 6 +++++-
 packages/env/src/index.ts              | 2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index e5ccbd8..cfb6061 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -720,6 +720,10 @@ export function bindConfig<
   function getInnerState(state: TState): TState {
     if (!isConfigBindState(state)) return state;
     if (state.cliState !== undefined) return state.cliState as TState;
+    return getInitialInnerState(state);
+  }
+
+  function getInitialInnerState(state: TState): TState {
     const initialState = parser.initialState;
     if (initialState != null && typeof initialState !== "object") {
       return initialState;
@@ -813,7 +817,7 @@ export function bindConfig<
       const innerState = isConfigBindState(context.state)
         ? (context.state.hasCliValue
           ? (context.state.cliState as TState)
-          : parser.initialState)
+          : getInitialInnerState(context.state))
         : context.state;
       const innerContext = innerState !== context.state
         ? { ...context, state: innerState }
diff --git a/packages/derived-defaults/src/index.ts b/packages/derived-defaults/src/index.ts
index 218e70e..9222ef3 100644
--- a/packages/derived-defaults/src/index.ts
+++ b/packages/derived-defaults/src/index.ts
@@ -338,6 +338,10 @@ export function bindDerivedDefault<
   function getInnerState(state: TState): TState {
     if (!isBindState(state)) return state;
     if (state.cliState !== undefined) return state.cliState as TState;
+    return getInitialInnerState(state);
+  }
+
+  function getInitialInnerState(state: TState): TState {
     const initialState = parser.initialState;
     if (initialState != null && typeof initialState !== "object") {
       return initialState;
@@ -515,7 +519,7 @@ export function bindDerivedDefault<
       const innerState = isBindState(context.state)
         ? (context.state.hasCliValue
           ? context.state.cliState as TState
-          : parser.initialState)
+          : getInitialInnerState(context.state))
         : context.state;
       const innerContext = innerState !== context.state
         ? { ...context, state: innerState }
diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index da388d4..f189f3b 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -799,7 +799,7 @@ export function bindEnv<
       const innerState = isEnvBindState(context.state)
         ? (context.state.hasCliValue
           ? (context.state.cliState as TState)
-          : parser.initialState)
+          : inheritAnnotations(context.state, parser.initialState))
         : context.state;
       const innerContext = innerState !== context.state
         ? { ...context, state: innerState }
-- 
2.43.0


From 44dcea76042520974e8288055792791361c01084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:49 +0000
Subject: [PATCH 25/40] fix: let multiple() extend a matched nested command

---
 packages/core/src/modifiers.ts  | 27 +++++++++++++--------------
 packages/core/src/primitives.ts |  7 +++++++
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index 2a24aab..af655a7 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -62,23 +62,22 @@ function isMatchedCommandParserState(
   parser: Parser<Mode, unknown, unknown>,
   state: unknown,
 ): boolean {
-  const getActiveBranch = Reflect.get(
-    parser,
-    Symbol.for("@optique/core/activeBranch"),
-  );
-  if (typeof getActiveBranch === "function") {
-    const branch = getActiveBranch(unwrapMultipleItemState(state).value);
-    return branch != null &&
-      isMatchedCommandParserState(branch.parser, branch.state);
-  }
-  if (Reflect.get(parser, Symbol.for("@optique/core/commandParser")) !== true) {
-    return false;
-  }
   const unwrapped = unwrapMultipleItemState(state).value;
-  return Array.isArray(unwrapped) &&
+  if (
+    Reflect.get(parser, Symbol.for("@optique/core/commandParser")) === true &&
+    Array.isArray(unwrapped) &&
     unwrapped.length === 2 &&
     unwrapped[0] === "matched" &&
-    typeof unwrapped[1] === "string";
+    typeof unwrapped[1] === "string"
+  ) {
+    return true;
+  }
+  const branch = Reflect.get(
+    parser,
+    Symbol.for("@optique/core/activeBranch"),
+  )?.(unwrapped);
+  return branch != null &&
+    isMatchedCommandParserState(branch.parser, branch.state);
 }
 
 function isUnstartedMultipleItemState(
diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 33cec13..5f899f5 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -3152,6 +3152,13 @@ export function command<M extends Mode, T, TState>(
     leadingNames: new Set(commandNames),
     acceptingAnyToken: false,
     initialState: undefined,
+    // Lets wrappers such as multiple() look at a nested command.
+    [Symbol.for("@optique/core/activeBranch")](state: CommandState<TState>) {
+      const normalizedState = normalizeCommandState(state);
+      return normalizedState?.[0] === "parsing"
+        ? { parser, state: normalizedState[1] }
+        : undefined;
+    },
     canSkip(state: CommandState<TState>, exec?: ExecutionContext) {
       const normalizedState = normalizeCommandState(state);
       if (normalizedState === undefined) return false;
-- 
2.43.0


From d27150c3294cec8a3f92227e851f99b34ad117bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:12 +0000
Subject: [PATCH 26/40] fix: let multiple() extend a matched command in any
 combinator

---
 packages/core/src/constructs.ts | 36 +++++++++++++++++++++++++--------
 packages/core/src/modifiers.ts  | 27 ++++++++++++++++++++-----
 packages/core/src/primitives.ts |  6 +++---
 3 files changed, 53 insertions(+), 16 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index c52f591..0867782 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -3990,13 +3990,13 @@ export function or(
     acceptingAnyToken: parsers.some((p) => p.acceptingAnyToken),
     initialState: undefined,
     // Lets wrappers such as multiple() look at the selected alternative.
-    [Symbol.for("@optique/core/activeBranch")](state: OrState) {
+    [Symbol.for("@optique/core/activeChildren")](state: OrState) {
       const activeState = normalizeExclusiveState(state);
-      if (activeState == null) return undefined;
+      if (activeState == null) return [];
       const [index, result] = activeState;
       return result.success
-        ? { parser: parsers[index], state: result.next.state }
-        : undefined;
+        ? [{ parser: parsers[index], state: result.next.state }]
+        : [];
     },
     canSkip(state: OrState, exec?: ExecutionContext) {
       const activeState = normalizeExclusiveState(state);
@@ -6269,6 +6269,15 @@ export function object<
     ),
     leadingNames: sharedBufferLeadingNames(parserPairs.map(([_, p]) => p)),
     acceptingAnyToken: parserPairs.some(([_, p]) => p.acceptingAnyToken),
+    [Symbol.for("@optique/core/activeChildren")](
+      state: { readonly [K in keyof T]: unknown },
+    ) {
+      const getFieldState = createFieldStateGetter(state);
+      return parserKeys.map((field) => ({
+        parser: parsers[field],
+        state: getFieldState(field, parsers[field]),
+      }));
+    },
     canSkip(
       state: { readonly [K in keyof T]: unknown },
       exec?: ExecutionContext,
@@ -8593,6 +8602,9 @@ export function tuple<
         ? U3
         : never;
     },
+    [Symbol.for("@optique/core/activeChildren")](state: readonly unknown[]) {
+      return parsers.map((parser, index) => ({ parser, state: state[index] }));
+    },
     canSkip(state: TupleState, exec?: ExecutionContext) {
       const stateArray = state as readonly unknown[];
       return parsers.every((parser, index) =>
@@ -10365,6 +10377,12 @@ export function merge(
     leadingNames: sharedBufferLeadingNames(parsers),
     acceptingAnyToken: parsers.some((p) => p.acceptingAnyToken),
     initialState,
+    [Symbol.for("@optique/core/activeChildren")](state: MergeState) {
+      return parsers.map((parser, index) => ({
+        parser,
+        state: extractParserStateFromState(parser, state, index),
+      }));
+    },
     canSkip(state: MergeState, exec?: ExecutionContext) {
       return parsers.every((parser, index) => {
         const parserState = extractParserStateFromState(parser, state, index);
@@ -12492,6 +12510,9 @@ export function concat(
     leadingNames: sharedBufferLeadingNames(parsers),
     acceptingAnyToken: parsers.some((p) => p.acceptingAnyToken),
     initialState,
+    [Symbol.for("@optique/core/activeChildren")](state: readonly unknown[]) {
+      return parsers.map((parser, index) => ({ parser, state: state[index] }));
+    },
     canSkip(state, exec?: ExecutionContext) {
       const stateArray = state as readonly unknown[];
       return parsers.every((parser, index) =>
@@ -12876,10 +12897,9 @@ export function group<M extends Mode, TValue, TState>(
         canSkip: parser.canSkip.bind(parser),
       }
       : {}),
-    [Symbol.for("@optique/core/activeBranch")]: (state: TState) => ({
-      parser,
-      state,
-    }),
+    [Symbol.for("@optique/core/activeChildren")]: (state: TState) => [
+      { parser, state },
+    ],
     getSuggestRuntimeNodes(state: TState, path: readonly PropertyKey[]) {
       return parser.getSuggestRuntimeNodes?.(state, path) ??
         (parser.dependencyMetadata?.source != null
diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index af655a7..b2b5df7 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -72,12 +72,23 @@ function isMatchedCommandParserState(
   ) {
     return true;
   }
-  const branch = Reflect.get(
+  const children: readonly ActiveChild[] | undefined = Reflect.get(
     parser,
-    Symbol.for("@optique/core/activeBranch"),
-  )?.(unwrapped);
-  return branch != null &&
-    isMatchedCommandParserState(branch.parser, branch.state);
+    Symbol.for("@optique/core/activeChildren"),
+  )?.(
+    isInjectedAnnotationWrapper(state)
+      ? unwrapInjectedAnnotationWrapper(state)
+      : state,
+  );
+  return children?.some((child) =>
+    child.state != null &&
+    isMatchedCommandParserState(child.parser, child.state)
+  ) === true;
+}
+
+interface ActiveChild {
+  readonly parser: Parser<Mode, unknown, unknown>;
+  readonly state: unknown;
 }
 
 function isUnstartedMultipleItemState(
@@ -737,6 +748,9 @@ export function optional<M extends Mode, TValue, TState>(
     // parser's catch-all status does not apply to the wrapper.
     acceptingAnyToken: false,
     initialState: undefined,
+    [Symbol.for("@optique/core/activeChildren")](state: [TState] | undefined) {
+      return Array.isArray(state) ? [{ parser, state: state[0] }] : [];
+    },
     canSkip(state: [TState] | undefined, exec?: ExecutionContext) {
       if (!Array.isArray(state)) return true;
       const innerState = normalizeOptionalLikeInnerState(
@@ -1164,6 +1178,9 @@ export function withDefault<
     // parser's catch-all status does not apply to the wrapper.
     acceptingAnyToken: false,
     initialState: undefined,
+    [Symbol.for("@optique/core/activeChildren")](state: [TState] | undefined) {
+      return Array.isArray(state) ? [{ parser, state: state[0] }] : [];
+    },
     canSkip(state: [TState] | undefined, exec?: ExecutionContext) {
       if (!Array.isArray(state)) return true;
       const innerState = normalizeOptionalLikeInnerState(
diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 5f899f5..b233d19 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -3153,11 +3153,11 @@ export function command<M extends Mode, T, TState>(
     acceptingAnyToken: false,
     initialState: undefined,
     // Lets wrappers such as multiple() look at a nested command.
-    [Symbol.for("@optique/core/activeBranch")](state: CommandState<TState>) {
+    [Symbol.for("@optique/core/activeChildren")](state: CommandState<TState>) {
       const normalizedState = normalizeCommandState(state);
       return normalizedState?.[0] === "parsing"
-        ? { parser, state: normalizedState[1] }
-        : undefined;
+        ? [{ parser, state: normalizedState[1] }]
+        : [];
     },
     canSkip(state: CommandState<TState>, exec?: ExecutionContext) {
       const normalizedState = normalizeCommandState(state);
-- 
2.43.0


From 4cccf25e48755bf18c998ffc8d1faa5d0fddfbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:40 +0000
Subject: [PATCH 27/40] fix: generated imports of commands in hidden files or
 directories

relativeModuleSpecifier() took a name that begins with a dot for a
relative path, so the generated module imported a bare specifier and
could not be loaded.
---
 packages/discover/src/generator.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/discover/src/generator.ts b/packages/discover/src/generator.ts
index cb85085..fea75d9 100644
--- a/packages/discover/src/generator.ts
+++ b/packages/discover/src/generator.ts
@@ -604,7 +604,10 @@ function displayCommandPath(path: readonly string[]): string {
 
 function relativeModuleSpecifier(fromDir: string, target: string): string {
   const relativePath = normalizeRelativePath(relative(fromDir, target));
-  return relativePath.startsWith(".") ? relativePath : `./${relativePath}`;
+  // A name may itself begin with a dot, as in a hidden directory.
+  return /^\.{1,2}(?:\/|$)/.test(relativePath)
+    ? relativePath
+    : `./${relativePath}`;
 }
 
 function relativeImportSpecifier(fromDir: string, target: string): string {
-- 
2.43.0


From d7267e46029edae4947d79d681d6d6c9cd553040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:40 +0000
Subject: [PATCH 28/40] fix: runAsync() and runParserAsync() reject instead of
 throwing

Both are documented to always return a promise, but with a synchronous
parser a failing value parser, output sink or exit handler made them
throw synchronously.
---
 packages/core/src/facade.ts | 7 ++++---
 packages/run/src/run.ts     | 5 ++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/core/src/facade.ts b/packages/core/src/facade.ts
index 5d1cb8f..0bf9eca 100644
--- a/packages/core/src/facade.ts
+++ b/packages/core/src/facade.ts
@@ -3139,7 +3139,7 @@ export function runParserSync<
  * @returns A Promise of the parsed result if successful.
  * @since 0.9.0
  */
-export function runParserAsync<
+export async function runParserAsync<
   TParser extends Parser<Mode, unknown, unknown>,
   THelp = void,
   TError = never,
@@ -3149,8 +3149,9 @@ export function runParserAsync<
   args: readonly string[],
   options?: RunOptions<THelp, TError>,
 ): Promise<InferValue<TParser>> {
-  const result = runParser(parser, programName, args, options);
-  return Promise.resolve(result) as Promise<InferValue<TParser>>;
+  return await runParser(parser, programName, args, options) as InferValue<
+    TParser
+  >;
 }
 
 function maybeCollapseCommandList(
diff --git a/packages/run/src/run.ts b/packages/run/src/run.ts
index 0be85c0..b9aa3ff 100644
--- a/packages/run/src/run.ts
+++ b/packages/run/src/run.ts
@@ -808,12 +808,11 @@ export function runAsync<T extends Parser<Mode, unknown, unknown>>(
 ): Promise<InferValue<T>>;
 
 // Implementation
-export function runAsync<T extends Parser<Mode, unknown, unknown>>(
+export async function runAsync<T extends Parser<Mode, unknown, unknown>>(
   parserOrProgram: T | Program<Mode, unknown>,
   options: RunOptions = {},
 ): Promise<InferValue<T>> {
-  const result = runImpl(parserOrProgram, options);
-  return Promise.resolve(result) as Promise<InferValue<T>>;
+  return await runImpl(parserOrProgram, options) as InferValue<T>;
 }
 
 /**
-- 
2.43.0


From 898d494905982608ec48ccc661ded586423db27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:29 +0000
Subject: [PATCH 29/40] fix: do not hide errors when completing values with
 annotations

With a source context in use, multiple() answered any error of an item's
parser by trying again, and optional() and withDefault() any TypeError, even
if the annotated state was not what the parser stumbled over.  The value
parser or key callback was called twice and its error could get lost.
---
 packages/core/src/modifiers.ts | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index b2b5df7..6e7c844 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -177,10 +177,17 @@ function shouldRetryOptionalLikeCompatibilityError(
   error: unknown,
   state: unknown,
 ): boolean {
-  return error instanceof TypeError &&
-    state != null &&
-    typeof state === "object" &&
-    isInjectedAnnotationWrapper(state);
+  return error instanceof TypeError && isWrappedPrimitiveState(state);
+}
+
+/**
+ * Whether a parser may have stumbled over the wrapper that carries annotations
+ * for its primitive state.  A wrapper without a state of its own cannot be the
+ * cause of an error, which then must not be hidden by trying again.
+ */
+function isWrappedPrimitiveState(state: unknown): boolean {
+  return isInjectedAnnotationWrapper(state) &&
+    unwrapInjectedAnnotationWrapper(state) != null;
 }
 
 function completeOptionalLikeSync<TValue, TState>(
@@ -2166,7 +2173,7 @@ export function multiple<M extends Mode, TValue, TState>(
       }
       return result;
     } catch (error) {
-      if (!isInjectedAnnotationWrapper(state)) {
+      if (!isWrappedPrimitiveState(state)) {
         throw error;
       }
       return syncParser.complete(unwrapInjectedWrapper(state), exec);
@@ -2189,7 +2196,7 @@ export function multiple<M extends Mode, TValue, TState>(
         state: unwrapInjectedWrapper(context.state),
       });
     } catch (error) {
-      if (!isInjectedAnnotationWrapper(context.state)) {
+      if (!isWrappedPrimitiveState(context.state)) {
         throw error;
       }
       return syncParser.parse({
@@ -2209,7 +2216,7 @@ export function multiple<M extends Mode, TValue, TState>(
       }
       return result;
     } catch (error) {
-      if (!isInjectedAnnotationWrapper(state)) {
+      if (!isWrappedPrimitiveState(state)) {
         throw error;
       }
       return await parser.complete(unwrapInjectedWrapper(state), exec);
@@ -2232,7 +2239,7 @@ export function multiple<M extends Mode, TValue, TState>(
         state: unwrapInjectedWrapper(context.state),
       });
     } catch (error) {
-      if (!isInjectedAnnotationWrapper(context.state)) {
+      if (!isWrappedPrimitiveState(context.state)) {
         throw error;
       }
       return await parser.parse({
@@ -2256,7 +2263,7 @@ export function multiple<M extends Mode, TValue, TState>(
       }
       return seed;
     } catch (error) {
-      if (!isInjectedAnnotationWrapper(state)) {
+      if (!isWrappedPrimitiveState(state)) {
         throw error;
       }
       return completeOrExtractPhase2Seed(
@@ -2281,7 +2288,7 @@ export function multiple<M extends Mode, TValue, TState>(
       }
       return seed;
     } catch (error) {
-      if (!isInjectedAnnotationWrapper(state)) {
+      if (!isWrappedPrimitiveState(state)) {
         throw error;
       }
       return await completeOrExtractPhase2Seed(
-- 
2.43.0


From 4ec7390c29233dfb5ab45b58224754536fe014fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:21 +0000
Subject: [PATCH 30/40] fix: completions inside optional() and withDefault()
 with annotations

With a source context in use, the wrapper carrying the annotations was
passed to the wrapped parser as its state, so completing a command line
crashed with "state.flatMap is not a function" and the like for optional
multiple(), seq() and other parsers whose state is an object.
---
 packages/core/src/modifiers.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index 6e7c844..053aa9a 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -680,6 +680,13 @@ function normalizeOptionalLikeSuggestState<TState>(
       ? getDelegatedAnnotationState(state, innerState)
       : innerState;
   }
+  if (
+    isInjectedAnnotationWrapper(state) &&
+    initialState != null && typeof initialState === "object"
+  ) {
+    // Only annotations so far: the wrapper is not a state of the parser.
+    return getDelegatedAnnotationState(state, initialState);
+  }
   return normalizeOptionalLikeInnerState(state, initialState, parser);
 }
 
-- 
2.43.0


From 5613f69a58050c3af0bc4b74eebbcbbdf3833a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:21 +0000
Subject: [PATCH 31/40] fix: negatableFlag() under optional() and withDefault()
 with annotations

With a source context in use, the wrapper carrying the annotations was
taken for an earlier occurrence of the flag, so giving it once failed
with "`undefined` and `--flag` cannot be used together."  The other
primitives took such a wrapper for a failed value after `--`.
---
 packages/core/src/primitives.ts | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index b233d19..981137e 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -1272,9 +1272,10 @@ export function option<M extends Mode, T>(
       };
     },
     complete(
-      state: ValueParserResult<T | boolean> | undefined,
+      annotatedState: ValueParserResult<T | boolean> | undefined,
       exec?: ExecutionContext,
     ): ModeValue<M, ValueParserResult<T | boolean>> {
+      const state = normalizeInjectedAnnotationState(annotatedState);
       const missing = valueParser == null
         ? { success: true as const, value: false }
         : {
@@ -1825,7 +1826,8 @@ export function flag(
         ),
       };
     },
-    complete(state, _exec?: ExecutionContext) {
+    complete(annotatedState, _exec?: ExecutionContext) {
+      const state = normalizeInjectedAnnotationState(annotatedState);
       if (state == null) {
         return {
           success: false,
@@ -2092,13 +2094,14 @@ function parseMatchedNegatableFlag(
   buffer: readonly string[],
   options: NegatableFlagOptions,
 ): ParserResult<NegatableFlagState> {
-  if (context.state != null) {
+  const previous = normalizeInjectedAnnotationState(context.state);
+  if (previous != null) {
     return {
       success: false,
       consumed: consumedOnFailure,
-      error: context.state.value === value
+      error: previous.value === value
         ? formatNegatableFlagDuplicateError(options, token)
-        : formatNegatableFlagConflictError(options, context.state.token, token),
+        : formatNegatableFlagConflictError(options, previous.token, token),
     };
   }
   return {
@@ -2160,7 +2163,7 @@ export function negatableFlag(
     acceptingAnyToken: false,
     initialState: undefined,
     canSkip(state) {
-      return state != null;
+      return normalizeInjectedAnnotationState(state) != null;
     },
     parse(context) {
       if (context.optionsTerminated) {
@@ -2277,7 +2280,8 @@ export function negatableFlag(
         ),
       };
     },
-    complete(state, _exec?: ExecutionContext) {
+    complete(annotatedState, _exec?: ExecutionContext) {
+      const state = normalizeInjectedAnnotationState(annotatedState);
       if (state == null) {
         return {
           success: false,
@@ -2570,9 +2574,10 @@ export function argument<M extends Mode, T>(
       );
     },
     complete(
-      state: ValueParserResult<T> | undefined,
+      annotatedState: ValueParserResult<T> | undefined,
       exec?: ExecutionContext,
     ): ModeValue<M, ValueParserResult<T>> {
+      const state = normalizeInjectedAnnotationState(annotatedState);
       const missing = {
         success: false as const,
         error: options.errors?.endOfInput ??
-- 
2.43.0


From 1415e8349cdc8c1e6de2cead06dcc017cd05b56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:21 +0000
Subject: [PATCH 32/40] fix: constant() yields its value even when annotations
 are in use

With a source context in use, map() around constant() was handed an
internal annotation wrapper or an annotated copy instead of the value.
---
 packages/core/src/primitives.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 981137e..90f2614 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -278,8 +278,9 @@ export function constant<const T>(value: T): FluentParser<"sync", T, T> {
     parse(context) {
       return { success: true, next: context, consumed: [] };
     },
-    complete(state, _exec?: ExecutionContext) {
-      return { success: true, value: state };
+    complete(_state, _exec?: ExecutionContext) {
+      // The state may be a copy of the value that carries annotations.
+      return { success: true, value };
     },
     suggest(_context, _prefix) {
       return [];
-- 
2.43.0


From f27be87fcb138d2239ac0c99556cfd6667a62368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:40 +0000
Subject: [PATCH 33/40] fix: multiple() with annotations no longer adds an item
 for no input

With a source context in use, multiple(object({ x: optional(argument()) }))
yielded an empty item even when the command line gave none.
---
 packages/core/src/modifiers.ts | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index 053aa9a..114be0d 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -100,7 +100,10 @@ function isUnstartedMultipleItemState(
 
   if (originalState === undefined) return false;
   const unwrappedOriginalState = unwrapMultipleItemState(originalState);
-  return unwrappedState.value === unwrappedOriginalState.value &&
+  return isSameStateExceptAnnotations(
+    unwrappedState.value,
+    unwrappedOriginalState.value,
+  ) &&
     (
       unwrappedState.viaBoundCliWrapper ||
       unwrappedOriginalState.viaBoundCliWrapper ||
@@ -111,6 +114,32 @@ function isUnstartedMultipleItemState(
     );
 }
 
+/**
+ * Whether two states of the same parser differ in nothing but the annotations
+ * attached to them, which combinators add to the states of their children.
+ */
+function isSameStateExceptAnnotations(a: unknown, b: unknown): boolean {
+  const left = unwrapInjectedAnnotationWrapper(a);
+  const right = unwrapInjectedAnnotationWrapper(b);
+  if (Object.is(left, right)) return true;
+  if (!isPlainObject(left) || !isPlainObject(right)) return false;
+  const keysOf = (state: object) =>
+    Reflect.ownKeys(state).filter((key) => key !== annotationKey);
+  const keys = keysOf(left);
+  return keys.length === keysOf(right).length &&
+    keys.every((key) =>
+      Object.hasOwn(right, key) &&
+      isSameStateExceptAnnotations(left[key], right[key])
+    );
+}
+
+function isPlainObject(
+  value: unknown,
+): value is Record<PropertyKey, unknown> {
+  return value != null && typeof value === "object" &&
+    Object.getPrototypeOf(value) === Object.prototype;
+}
+
 function isBoundCliWrapperState(
   state: unknown,
 ): state is {
-- 
2.43.0


From 5ec2a55255802e7c8f0fbce785014f7a5724173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:36 +0000
Subject: [PATCH 34/40] fix: report the first failing field of an asynchronous
 object, as the synchronous path does

A dependency source that takes its value from a source context is completed
before the other fields.  When it failed, asynchronous parsing reported its
error even if a field declared before it failed too.
---
 packages/core/src/constructs.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 0867782..90be9ae 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -6548,18 +6548,22 @@ export function object<
           };
           const fieldGroups: (keyof T)[][] = [];
           const deferredFields: (keyof T)[] = [];
+          let preCompletedFailure: ReturnType<typeof applyValueResult>;
           let previousDerived = false;
           for (const field of parserKeys) {
             const fieldKey = field as string | symbol;
             const fieldParser = parsers[field];
             const preCompletedResult = preCompleted.get(fieldKey);
             if (preCompletedResult !== undefined) {
-              const failure = applyValueResult(
+              preCompletedFailure = applyValueResult(
                 fieldKey,
                 unwrapCompleteResult(preCompletedResult),
               );
-              if (failure != null) return failure;
-              continue;
+              if (preCompletedFailure == null) continue;
+              // As in the sync path, an earlier field that fails too is
+              // reported first; later and deferred fields are not completed.
+              deferredFields.length = 0;
+              break;
             }
             if (
               typeof fieldParser.shouldDeferCompletion === "function" &&
@@ -6608,6 +6612,7 @@ export function object<
               if (failure != null) return failure;
             }
           }
+          if (preCompletedFailure != null) return preCompletedFailure;
 
           const isDeferred = deferredKeys.size > 0 || hasDeferred;
           return {
-- 
2.43.0


From b05330f0c41f837bf839ec98f0c79a432ff79ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:26 +0000
Subject: [PATCH 35/40] fix: document optional parsers whose state only carries
 annotations

---
 packages/core/src/modifiers.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index 114be0d..7c464d4 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -970,7 +970,7 @@ export function optional<M extends Mode, TValue, TState>(
     ) {
       const innerState: DocState<TState> = state.kind === "unavailable"
         ? { kind: "unavailable" }
-        : state.state === undefined
+        : !Array.isArray(state.state)
         ? { kind: "unavailable" }
         : { kind: "available", state: state.state[0] };
       return syncParser.getDocFragments(innerState, defaultValue);
@@ -1435,7 +1435,7 @@ export function withDefault<
     ) {
       const innerState: DocState<TState> = state.kind === "unavailable"
         ? { kind: "unavailable" }
-        : state.state === undefined
+        : !Array.isArray(state.state)
         ? { kind: "unavailable" }
         : { kind: "available", state: state.state[0] };
 
-- 
2.43.0


From 9ab06c8ccbb9c60852cab0b8b38fc89714b8820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:23 +0000
Subject: [PATCH 36/40] fix: let optional() and withDefault() fall back when a
 bound argument has no value

---
 packages/core/src/modifiers.ts | 139 +++++++++++++++++++++------------
 1 file changed, 87 insertions(+), 52 deletions(-)

diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index 7c464d4..d023449 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -609,6 +609,26 @@ function processOptionalStyleResult<TState>(
   return result;
 }
 
+/**
+ * Whether a parse state belongs to a non-CLI source binding (bindEnv(),
+ * bindConfig(), ...) that the command line did not match and whose source has
+ * nothing to offer either.  Such a state carries no value, although parsing
+ * it succeeded without consuming anything.
+ * @internal
+ */
+function isUnsuppliedSourceBindingState<TState>(
+  state: TState,
+  parser: Parser<Mode, unknown, TState>,
+  exec?: ExecutionContext,
+): boolean {
+  return parser[unmatchedNonCliDependencySourceStateMarker] === true &&
+    state != null &&
+    typeof state === "object" &&
+    Object.hasOwn(state, "hasCliValue") &&
+    (state as { readonly hasCliValue?: unknown }).hasCliValue === false &&
+    parser.canSkip?.(state, exec) !== true;
+}
+
 /**
  * Creates a `shouldDeferCompletion` adapter that unwraps the outer state
  * shape (`[TState] | undefined`) used by {@link optional} and
@@ -844,36 +864,36 @@ export function optional<M extends Mode, TValue, TState>(
       );
     },
     complete(state: [TState] | undefined, exec?: ExecutionContext) {
+      // Helper: delegate to inner.complete() with the optional's
+      // inner state shape, wrapping any inner failure as
+      // `{ success: true, value: undefined }` so optional always
+      // reports success upstream.
+      const delegateToInner = (
+        resolvedInnerState: TState,
+      ): ModeValue<M, ValueParserResult<TValue | undefined>> => {
+        const innerResult = dispatchByMode(
+          parser.mode,
+          () =>
+            completeOptionalLikeSync(syncParser, resolvedInnerState, exec),
+          async () =>
+            await completeOptionalLikeAsync(
+              parser,
+              resolvedInnerState,
+              exec,
+            ) as ValueParserResult<TValue | undefined>,
+        );
+        return mapModeValue(
+          parser.mode,
+          innerResult,
+          (result) =>
+            result.success
+              ? result
+              : { success: true, value: undefined } as ValueParserResult<
+                TValue | undefined
+              >,
+        );
+      };
       if (!Array.isArray(state)) {
-        // Helper: delegate to inner.complete() with the optional's
-        // inner state shape, wrapping any inner failure as
-        // `{ success: true, value: undefined }` so optional always
-        // reports success upstream.
-        const delegateToInner = (
-          resolvedInnerState: TState,
-        ): ModeValue<M, ValueParserResult<TValue | undefined>> => {
-          const innerResult = dispatchByMode(
-            parser.mode,
-            () =>
-              completeOptionalLikeSync(syncParser, resolvedInnerState, exec),
-            async () =>
-              await completeOptionalLikeAsync(
-                parser,
-                resolvedInnerState,
-                exec,
-              ) as ValueParserResult<TValue | undefined>,
-          );
-          return mapModeValue(
-            parser.mode,
-            innerResult,
-            (result) =>
-              result.success
-                ? result
-                : { success: true, value: undefined } as ValueParserResult<
-                  TValue | undefined
-                >,
-          );
-        };
         if (
           typeof parser.shouldDeferCompletion === "function" &&
           state != null &&
@@ -942,6 +962,9 @@ export function optional<M extends Mode, TValue, TState>(
         parser.initialState,
         parser,
       );
+      if (isUnsuppliedSourceBindingState(innerElement, parser, exec)) {
+        return delegateToInner(innerElement);
+      }
       return dispatchByMode(
         parser.mode,
         () =>
@@ -1294,6 +1317,28 @@ export function withDefault<
         return raw;
       }
 
+      const handleInnerResult = (
+        result: ValueParserResult<TValue>,
+      ): ValueParserResult<TValue | TDefault> => {
+        if (result.success && result.value !== undefined) {
+          return result;
+        }
+        // Inner source binding returned nothing → fall back to the
+        // configured default.
+        try {
+          return {
+            success: true as const,
+            value: evaluateDefault(),
+          };
+        } catch (error) {
+          return {
+            success: false as const,
+            error: error instanceof WithDefaultError
+              ? error.errorMessage
+              : message`${text(String(error))}`,
+          };
+        }
+      };
       if (!Array.isArray(state)) {
         // Case: Inner parser has completion deferral hook (e.g.,
         // withDefault(bindConfig(...), val)). Delegate to inner parser so
@@ -1358,28 +1403,6 @@ export function withDefault<
                 exec,
               ) as ValueParserResult<TValue>,
           );
-          const handleInnerResult = (
-            result: ValueParserResult<TValue>,
-          ): ValueParserResult<TValue | TDefault> => {
-            if (result.success && result.value !== undefined) {
-              return result;
-            }
-            // Inner source binding returned nothing → fall back to the
-            // configured default.
-            try {
-              return {
-                success: true as const,
-                value: evaluateDefault(),
-              };
-            } catch (error) {
-              return {
-                success: false as const,
-                error: error instanceof WithDefaultError
-                  ? error.errorMessage
-                  : message`${text(String(error))}`,
-              };
-            }
-          };
           return mapModeValue<
             M,
             ValueParserResult<TValue>,
@@ -1407,7 +1430,7 @@ export function withDefault<
         parser.initialState,
         parser,
       );
-      return dispatchByMode(
+      const innerResult = dispatchByMode(
         parser.mode,
         () =>
           completeOptionalLikeSync(syncParser, innerElement as TState, exec),
@@ -1418,6 +1441,18 @@ export function withDefault<
             exec,
           ) as ValueParserResult<TValue | TDefault>,
       );
+      // prompt() relies on the raw result of bindings that defer.
+      if (
+        typeof parser.shouldDeferCompletion !== "function" &&
+        isUnsuppliedSourceBindingState(innerElement, parser, exec)
+      ) {
+        return mapModeValue(
+          parser.mode,
+          innerResult as ModeValue<M, ValueParserResult<TValue>>,
+          handleInnerResult,
+        );
+      }
+      return innerResult;
     },
     suggest(
       context: ParserContext<[TState] | undefined>,
-- 
2.43.0


From fd9e16a63db08edd8d8b76493ffa191d0fc634df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:23 +0000
Subject: [PATCH 37/40] fix: do not take an options terminator for the value of
 a bound option

---
 packages/config/src/index.ts           | 7 ++++++-
 packages/derived-defaults/src/index.ts | 7 ++++++-
 packages/env/src/index.ts              | 7 ++++++-
 packages/prompt/src/index.ts           | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index cfb6061..d443ad3 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -832,7 +832,12 @@ export function bindConfig<
           // with consumed: [] when the CLI option is absent; treating those
           // as "CLI provided" would skip the config fallback and break
           // composition with bindEnv.
-          const cliConsumed = hadCliValue || result.consumed.length > 0;
+          // An options terminator (`--`) that the inner option consumed supplies
+          // no value.
+          const onlyTerminator = result.consumed.length === 1 &&
+            result.next.optionsTerminated && !context.optionsTerminated;
+          const cliConsumed = hadCliValue ||
+            result.consumed.length > 0 && !onlyTerminator;
           const newState = injectAnnotations({
             [configBindStateKey]: true as const,
             hasCliValue: cliConsumed,
diff --git a/packages/derived-defaults/src/index.ts b/packages/derived-defaults/src/index.ts
index 9222ef3..7441d97 100644
--- a/packages/derived-defaults/src/index.ts
+++ b/packages/derived-defaults/src/index.ts
@@ -528,7 +528,12 @@ export function bindDerivedDefault<
         result: ParserResult<TState>,
       ): ParserResult<TState> => {
         if (result.success) {
-          const cliConsumed = hadCliValue || result.consumed.length > 0;
+          // An options terminator (`--`) that the inner option consumed supplies
+          // no value.
+          const onlyTerminator = result.consumed.length === 1 &&
+            result.next.optionsTerminated && !context.optionsTerminated;
+          const cliConsumed = hadCliValue ||
+            result.consumed.length > 0 && !onlyTerminator;
           const nextState = injectAnnotations({
             [bindStateKey]: true as const,
             hasCliValue: cliConsumed,
diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index f189f3b..2c63735 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -814,7 +814,12 @@ export function bindEnv<
           // return success with consumed: [] when the CLI option is
           // absent; treating those as "CLI provided" would skip the env
           // fallback and break composition.
-          const cliConsumed = hadCliValue || result.consumed.length > 0;
+          // An options terminator (`--`) that the inner option consumed supplies
+          // no value.
+          const onlyTerminator = result.consumed.length === 1 &&
+            result.next.optionsTerminated && !context.optionsTerminated;
+          const cliConsumed = hadCliValue ||
+            result.consumed.length > 0 && !onlyTerminator;
           const nextState = injectAnnotations({
             [envBindStateKey]: true as const,
             hasCliValue: cliConsumed,
diff --git a/packages/prompt/src/index.ts b/packages/prompt/src/index.ts
index a04c10b..3062139 100644
--- a/packages/prompt/src/index.ts
+++ b/packages/prompt/src/index.ts
@@ -315,7 +315,12 @@ export function createPromptAdapter<TConfig>(
                 getAnnotations(result.next.state) !== annotations
               ? injectAnnotations(result.next.state, annotations)
               : result.next.state;
-            const cliConsumed = hadCliValue || result.consumed.length > 0;
+            // An options terminator (`--`) that the inner option consumed supplies
+            // no value.
+            const onlyTerminator = result.consumed.length === 1 &&
+              result.next.optionsTerminated && !context.optionsTerminated;
+            const cliConsumed = hadCliValue ||
+              result.consumed.length > 0 && !onlyTerminator;
             const nextState = injectAnnotations({
               [promptBindStateKey]: true as const,
               hasCliValue: cliConsumed,
-- 
2.43.0


From eb1af3bb47ce89c985cc38f8b6080a9e46a9ced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:27 +0000
Subject: [PATCH 38/40] fix: complete bound arguments whose environment
 variable is not set

---
 packages/env/src/index.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index 2c63735..ee74b6f 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -883,7 +883,13 @@ export function bindEnv<
       );
     },
 
-    suggest: parser.suggest,
+    suggest: (context, prefix) => {
+      const innerState = getInnerState(context.state);
+      const innerContext = innerState !== context.state
+        ? { ...context, state: innerState }
+        : context;
+      return parser.suggest(innerContext, prefix);
+    },
     ...(typeof deferPromptUntilConfigResolves === "function"
       ? {
         shouldDeferCompletion: (
-- 
2.43.0


From 8b8e5307319c37e05cebdcf3a330ed28769b7938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:22 +0000
Subject: [PATCH 39/40] fix: don't take another alternative's value for the
 dependency source

or() and longestMatch() over a dependency source and other alternatives
passed the value completed for another alternative (e.g., constant()) to
derived parsers as the source's value whenever annotations were present.
---
 packages/core/src/constructs.ts          | 12 ++++++++++++
 packages/core/src/dependency-metadata.ts |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 90be9ae..dc40e7b 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -1672,6 +1672,10 @@ function composeExclusiveDependencyMetadata(
       preservesSourceValue: sourceBranches.every((parser) =>
         parser.dependencyMetadata?.source?.preservesSourceValue !== false
       ),
+      hasOtherAlternatives: sourceBranches.length < parsers.length ||
+        sourceBranches.some((parser) =>
+          parser.dependencyMetadata?.source?.hasOtherAlternatives === true
+        ),
       extractSourceValue(state) {
         if (
           !Array.isArray(state) || state.length !== 2 ||
@@ -5179,6 +5183,14 @@ function wrapAsDependencySourceState(
   if (metadataSource?.preservesSourceValue === false) {
     return undefined;
   }
+  // An alternative that is not the source provides no value for it, and only
+  // a default is known to stand for the source itself.
+  if (
+    metadataSource?.hasOtherAlternatives === true &&
+    metadataSource.getMissingSourceValue == null
+  ) {
+    return undefined;
+  }
   const hasDep = metadataSource != null ||
     isWrappedDependencySource(parser) ||
     isPendingDependencySourceState(parser.initialState);
diff --git a/packages/core/src/dependency-metadata.ts b/packages/core/src/dependency-metadata.ts
index 6145ca3..2a9baa8 100644
--- a/packages/core/src/dependency-metadata.ts
+++ b/packages/core/src/dependency-metadata.ts
@@ -78,6 +78,13 @@ export interface DependencySourceCapability {
    * `false` when a transform like `map()` has been applied.
    */
   readonly preservesSourceValue: boolean;
+
+  /**
+   * Whether the parser chooses between the source and alternatives that are
+   * not the source (e.g., `or(option("--env", source), constant("dev"))`), so
+   * that its completed value may come from one of those alternatives.
+   */
+  readonly hasOtherAlternatives?: boolean;
 }
 
 /**
-- 
2.43.0


From 9d02ef561205b432450b84be4cea7becd624b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:57 +0000
Subject: [PATCH 40/40] fix: let phase two resolve the discriminator despite a
 default branch

conditional() with a default branch that the input does not satisfy gave the
two-phase runner no seed, so a discriminator bound to a configuration or a
derived default was never resolved and the run was refused.
---
 packages/core/src/constructs.ts | 38 +++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index dc40e7b..8bd50ef 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -15357,7 +15357,12 @@ export function conditional(
                 state.branchState ?? syncDefaultBranch.initialState,
                 exec,
               );
-              return combineTuplePhase2Seeds(null, branchSeed);
+              // The default branch is only a stand-in while phase two may
+              // still supply the discriminator.
+              return combineTuplePhase2Seeds(
+                branchSeed == null ? discriminatorSeed : null,
+                branchSeed,
+              );
             }
             return combineTuplePhase2Seeds(discriminatorSeed, null);
           }
@@ -15372,7 +15377,17 @@ export function conditional(
             exec,
           );
           const discriminatorSeed = state.selectedBranch.kind === "default"
-            ? null
+            ? branchSeed == null
+              ? extractPhase2Seed(
+                syncDiscriminator,
+                getAnnotatedChildState(
+                  state,
+                  state.discriminatorState,
+                  syncDiscriminator,
+                ),
+                discriminatorExec,
+              )
+              : null
             : state.discriminatorValue != null &&
                 state.discriminatorValue === state.selectedBranch.key
             ? { value: state.discriminatorValue }
@@ -15418,7 +15433,12 @@ export function conditional(
                 state.branchState ?? defaultBranch.initialState,
                 exec,
               );
-              return combineTuplePhase2Seeds(null, branchSeed);
+              // The default branch is only a stand-in while phase two may
+              // still supply the discriminator.
+              return combineTuplePhase2Seeds(
+                branchSeed == null ? discriminatorSeed : null,
+                branchSeed,
+              );
             }
             return combineTuplePhase2Seeds(discriminatorSeed, null);
           }
@@ -15433,7 +15453,17 @@ export function conditional(
             exec,
           );
           const discriminatorSeed = state.selectedBranch.kind === "default"
-            ? null
+            ? branchSeed == null
+              ? await extractPhase2Seed(
+                discriminator,
+                getAnnotatedChildState(
+                  state,
+                  state.discriminatorState,
+                  discriminator,
+                ),
+                discriminatorExec,
+              )
+              : null
             : state.discriminatorValue != null &&
                 state.discriminatorValue === state.selectedBranch.key
             ? { value: state.discriminatorValue }
-- 
2.43.0

