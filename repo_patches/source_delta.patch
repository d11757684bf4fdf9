From 97c740d13464ac85c6f77d4870e6b76b89aa2398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:27 +0000
Subject: [PATCH 01/32] fix: disposing a state subscription twice must not
 remove another handler

The second call spliced index -1, dropping the last handler: another subscriber,
or the internal handler which keeps a store's get() up to date.
---
 libraries/states/src/state.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 3a07c93..4cb2e16 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -88,7 +88,10 @@ export function createState<T>(
 		if (handlers.includes(handler)) return () => {}
 		log.on(logLevels.trace, log => log(`new onChange handler: ${tersify(handler)}`))
 		handlers.push(handler)
+		let active = true
 		return () => {
+			if (!active) return
+			active = false
 			handlers.splice(handlers.indexOf(handler), 1)
 		}
 	}
-- 
2.43.0


From b380550f0629a4ffaaf837b809dba61a6f6dfaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:15 +0000
Subject: [PATCH 02/32] fix: unsubscribing inside a change handler must not
 skip other handlers

---
 libraries/states/src/state.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 4cb2e16..de09fd5 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -49,8 +49,10 @@ export function createState<T>(
 
 	function notifyAfterSet(old: T, value: T) {
 		log.planck('state changed:', old, value)
-		handlers.forEach(h => {
-			h(value, old)
+		// a handler can unsubscribe itself or others:
+		// the ones still subscribed must not be skipped, and the removed ones must not be called.
+		handlers.slice().forEach(h => {
+			if (handlers.includes(h)) h(value, old)
 		})
 		return value
 	}
-- 
2.43.0


From b7d36f0160f7100c1f94521c000288394854e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 03/32] fix: an async updater resolving to nothing must clear
 the value

The handlers were notified of undefined, but the value itself was kept:
setting it again or resetting was then taken for a no-op.
---
 libraries/states/src/state.ts | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index de09fd5..d5d6e28 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -74,10 +74,7 @@ export function createState<T>(
 			})
 			if (p) {
 				return p.then(v => {
-					if (v === nothing) {
-						return notifyAfterSet(old, undefined as any)
-					}
-					value = Object.freeze(v ?? r)
+					value = Object.freeze(v === nothing ? (undefined as any) : (v ?? r))
 					return notifyAfterSet(old, value)
 				})
 			}
-- 
2.43.0


From ffa7d40d169db903d454f70aa9f69b2316a48f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:09 +0000
Subject: [PATCH 04/32] fix: an async updater resolving to null must set the
 value to null

---
 libraries/states/src/state.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index d5d6e28..f4e137d 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -74,7 +74,7 @@ export function createState<T>(
 			})
 			if (p) {
 				return p.then(v => {
-					value = Object.freeze(v === nothing ? (undefined as any) : (v ?? r))
+					value = Object.freeze(v === nothing ? (undefined as any) : v === undefined ? r : v)
 					return notifyAfterSet(old, value)
 				})
 			}
-- 
2.43.0


From e2f88a47a12de1282a85a6885b36e3dd34245bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 05/32] fix: notify the value an async updater replaces as the
 previous value

not the one at the time it was started, which may be replaced since.
---
 libraries/states/src/state.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index f4e137d..e2f7f3f 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -74,8 +74,9 @@ export function createState<T>(
 			})
 			if (p) {
 				return p.then(v => {
+					const prev = value
 					value = Object.freeze(v === nothing ? (undefined as any) : v === undefined ? r : v)
-					return notifyAfterSet(old, value)
+					return notifyAfterSet(prev, value)
 				})
 			}
 			value = Object.freeze(r)
-- 
2.43.0


From e5561ed14c2caca3a7603177b3395ed6a0e6a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 06/32] fix: an updater leaving the value unchanged must not
 notify a change

---
 libraries/states/src/state.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index e2f7f3f..742c053 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -76,10 +76,11 @@ export function createState<T>(
 				return p.then(v => {
 					const prev = value
 					value = Object.freeze(v === nothing ? (undefined as any) : v === undefined ? r : v)
-					return notifyAfterSet(prev, value)
+					return Object.is(prev, value) ? value : notifyAfterSet(prev, value)
 				})
 			}
 			value = Object.freeze(r)
+			if (Object.is(old, value)) return value
 		}
 		return notifyAfterSet(old, value)
 	}
-- 
2.43.0


From 3139620e1887501b82e0bdbc5a1a5d52af5d376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 07/32] fix: data nested in a state value must be immutable too

A value set directly, and the initial value, were frozen shallowly:
nested data could be modified through get(), unnoticed by any handler.
---
 libraries/states/src/state.ts | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 742c053..d41c99f 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -1,5 +1,5 @@
 import { type Logger, logLevels } from '@just-web/app'
-import { nothing, produce } from 'immer'
+import { freeze, nothing, produce } from 'immer'
 import { tersify } from 'tersify'
 import { type AnyFunction, isPromise } from 'type-plus'
 import { getDefaultLogger } from './log.js'
@@ -44,7 +44,7 @@ export function createState<T>(
 	meta?: StateMeta
 ): [value: T, set: SetState<T>, onChange: OnStateChange<T>, reset: ResetState] {
 	const handlers: StateChangeHandler<T>[] = []
-	let value = Object.freeze(init)
+	let value = toImmutable(init)
 	const log = meta?.logger ?? getDefaultLogger()
 
 	function notifyAfterSet(old: T, value: T) {
@@ -64,7 +64,7 @@ export function createState<T>(
 
 		const old = value
 		if (typeof init === 'function' || typeof newValue !== 'function') {
-			value = Object.freeze(newValue as T)
+			value = toImmutable(newValue as T)
 		} else {
 			let p: Promise<T | void> | undefined
 			const r = produce(old, draft => {
@@ -75,11 +75,11 @@ export function createState<T>(
 			if (p) {
 				return p.then(v => {
 					const prev = value
-					value = Object.freeze(v === nothing ? (undefined as any) : v === undefined ? r : v)
+					value = toImmutable(v === nothing ? (undefined as any) : v === undefined ? r : v)
 					return Object.is(prev, value) ? value : notifyAfterSet(prev, value)
 				})
 			}
-			value = Object.freeze(r)
+			value = toImmutable(r)
 			if (Object.is(old, value)) return value
 		}
 		return notifyAfterSet(old, value)
@@ -103,3 +103,10 @@ export function createState<T>(
 
 	return [value, set as any, onChange, reset]
 }
+
+/**
+ * All data stored in the states are immutable, including the nested ones.
+ */
+function toImmutable<T>(value: T): T {
+	return Object.freeze(freeze(value, true))
+}
-- 
2.43.0


From 9d68b6f768da1c0f6040c56b7c54e751fe36484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 08/32] fix: registry has() must agree with keys()

It reported inherited names ('toString', 'constructor', ...) as entries,
and missed entries holding undefined.
---
 libraries/states/src/registry.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/states/src/registry.ts b/libraries/states/src/registry.ts
index 4257f89..0c30052 100644
--- a/libraries/states/src/registry.ts
+++ b/libraries/states/src/registry.ts
@@ -33,7 +33,7 @@ export function createRegistry<K extends KeyTypes, T>(
 			return [...Object.keys(r), ...Object.getOwnPropertySymbols(r)] as Widen<K>[]
 		},
 		has(key) {
-			return store.get()[key] !== undefined
+			return Object.prototype.hasOwnProperty.call(store.get(), key)
 		},
 		size() {
 			return this.keys().length
-- 
2.43.0


From 4de210c97bb189263e06e9f4e8e1bbdf655e12f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 09/32] fix: invoking a command named as an Object member must
 not call that member

'toString', 'constructor', ... were taken for registered commands.
---
 plugins/commands/src/handlers.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plugins/commands/src/handlers.ts b/plugins/commands/src/handlers.ts
index a1a1352..6f15af9 100644
--- a/plugins/commands/src/handlers.ts
+++ b/plugins/commands/src/handlers.ts
@@ -1,7 +1,7 @@
 import { type LogGizmo, logLevels } from '@just-web/app'
 import { createRegistry } from '@just-web/states'
 import { tersify } from 'tersify'
-import type { AnyFunction } from 'type-plus'
+import { type AnyFunction, record } from 'type-plus'
 import type { HandlerRegistry } from './types.js'
 
 export namespace handlerRegistry {
@@ -11,7 +11,9 @@ export namespace handlerRegistry {
 export function handlerRegistry({ log }: LogGizmo, options?: handlerRegistry.Options): HandlerRegistry {
 	const logger = log.getLogger('@just-web/commands')
 
-	const registry = createRegistry<string, (...args: any[]) => void>(options)
+	const registry = createRegistry<string, (...args: any[]) => void>(
+		Object.assign(record<string, AnyFunction>(), options)
+	)
 
 	return {
 		/**
-- 
2.43.0


From 0bfbc8df184885ada10670f53e8c4c5c2d29dca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 10/32] fix: title of a command whose id has no plugin part

It was generated from the last character of the id only.
---
 plugins/commands/src/formatCommand.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/commands/src/formatCommand.ts b/plugins/commands/src/formatCommand.ts
index 72db5a9..f0a8147 100644
--- a/plugins/commands/src/formatCommand.ts
+++ b/plugins/commands/src/formatCommand.ts
@@ -11,5 +11,5 @@ export function formatCommand(cmd: CommandContribution) {
 
 function generateTitle(command: string) {
 	const i = command.indexOf('.')
-	return sentenceCase(command.slice(i))
+	return sentenceCase(command.slice(i + 1))
 }
-- 
2.43.0


From e555e61c42bf2c25fa6dfc53e6935a3e70e4a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 11/32] fix: a stale unregister must not remove a later
 registration of the route

---
 plugins/routes/src/routes_gizmo.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plugins/routes/src/routes_gizmo.ts b/plugins/routes/src/routes_gizmo.ts
index 4729900..9b1f98e 100644
--- a/plugins/routes/src/routes_gizmo.ts
+++ b/plugins/routes/src/routes_gizmo.ts
@@ -36,13 +36,14 @@ export const routesGizmo = define({
 					return () => {}
 				}
 
+				const entry: Route = () => handler()
 				store.set(s => {
-					s.routes[route] = handler
+					s.routes[route] = entry
 				})
 
 				return () => {
 					store.set(s => {
-						delete s.routes[route]
+						if (s.routes[route] === entry) delete s.routes[route]
 					})
 				}
 			},
-- 
2.43.0


From 875ea55f7e8aefb560406f64d93104cd655a0a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 12/32] fix: setting a browser preference must complete, or
 fail, with its write

The returned promise was resolved before an async updater had run,
and neither its rejection nor a storage failure reached the caller.
---
 plugins/browser-preferences/src/browser_preferences_gizmo.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/browser-preferences/src/browser_preferences_gizmo.ts b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
index f89b76b..02566df 100644
--- a/plugins/browser-preferences/src/browser_preferences_gizmo.ts
+++ b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
@@ -29,11 +29,11 @@ export const browserPreferencesGizmo = define({
 			ctx.log.planck(`get: '${k}'`)
 			return getItem(k) ?? defaultValue
 		})
-		setUserPreference.connect(ctx, async (key, value) => {
+		setUserPreference.connect(ctx, (key, value) => {
 			const k = getKey(ctx.name, key)
 			const original = getItem(k)
 			const v = typeof value === 'function' ? produce(original, value as any) : value
-			MaybePromise.transform(v, v => {
+			return MaybePromise.transform(v, v => {
 				if (isNothing(v) || v === undefined) {
 					ctx.log.trace(`set: clear '${k}'`)
 					localStorage.removeItem(k)
-- 
2.43.0


From 5e9ed88bf545ac0225dded7fbbd76022f48643e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 13/32] fix: a preference updater returning undefined must
 remove the preference

as documented on setUserPreference: immer took it for an unchanged draft and kept the value.
---
 plugins/browser-preferences/src/browser_preferences_gizmo.ts | 3 +--
 plugins/preferences/src/memory_preferences_gizmo.ts          | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/plugins/browser-preferences/src/browser_preferences_gizmo.ts b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
index 02566df..360e6f5 100644
--- a/plugins/browser-preferences/src/browser_preferences_gizmo.ts
+++ b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
@@ -4,7 +4,6 @@ import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { clearAllUserPreferences, getUserPreference, preferencesGizmo, setUserPreference } from '@just-web/preferences'
 import { isNothing } from '@just-web/states'
-import { produce } from 'immer'
 import { decode, encode } from 'js-base64'
 import { MaybePromise } from 'type-plus'
 
@@ -32,7 +31,7 @@ export const browserPreferencesGizmo = define({
 		setUserPreference.connect(ctx, (key, value) => {
 			const k = getKey(ctx.name, key)
 			const original = getItem(k)
-			const v = typeof value === 'function' ? produce(original, value as any) : value
+			const v = typeof value === 'function' ? (value as any)(original) : value
 			return MaybePromise.transform(v, v => {
 				if (isNothing(v) || v === undefined) {
 					ctx.log.trace(`set: clear '${k}'`)
diff --git a/plugins/preferences/src/memory_preferences_gizmo.ts b/plugins/preferences/src/memory_preferences_gizmo.ts
index facb62b..9ae88ad 100644
--- a/plugins/preferences/src/memory_preferences_gizmo.ts
+++ b/plugins/preferences/src/memory_preferences_gizmo.ts
@@ -2,7 +2,6 @@ import { define, incubate } from '@just-web/app'
 import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { isNothing } from '@just-web/states'
-import { produce } from 'immer'
 import { MaybePromise, record } from 'type-plus'
 import { clearAllUserPreferences, getUserPreference, setUserPreference } from './preferences.js'
 import { preferencesGizmo } from './preferences_gizmo.js'
@@ -33,9 +32,9 @@ export const memoryPreferencesGizmo = define({
 		let storage = record<string, any>()
 		getUserPreference.connect(ctx, (key, defaultValue) => storage[key] ?? defaultValue)
 		setUserPreference.connect(ctx, (key, value) => {
-			const v = typeof value === 'function' ? produce(storage[key], value as any) : value
+			const v = typeof value === 'function' ? (value as any)(storage[key]) : value
 			return MaybePromise.transform(v, v => {
-				if (isNothing(v)) delete storage[key]
+				if (isNothing(v) || v === undefined) delete storage[key]
 				else storage[key] = v
 			})
 		})
-- 
2.43.0


From 92c81d3b63592eb3eba59fb214e036dc24dee114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 14/32] fix: a preference store must keep the in-place changes
 of an updater

They were lost when the preference exists, and changed the default value otherwise.
---
 plugins/preferences/src/preferences_gizmo.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/plugins/preferences/src/preferences_gizmo.ts b/plugins/preferences/src/preferences_gizmo.ts
index bfa31bb..f73dd97 100644
--- a/plugins/preferences/src/preferences_gizmo.ts
+++ b/plugins/preferences/src/preferences_gizmo.ts
@@ -49,10 +49,11 @@ export const preferencesGizmo = define({
 					function set(value: SetStateValue<T | undefined> | undefined) {
 						if (isType<Updater<T>>(value, value => typeof value === 'function')) {
 							return self.set(key, v => {
-								const orig: T = v !== undefined ? JSON.parse(v) : defaultValue
-								return MaybePromise.transform(value(orig as any), v => {
+								const s = v ?? JSON.stringify(defaultValue)
+								const draft = s !== undefined ? JSON.parse(s) : undefined
+								return MaybePromise.transform(value(draft), v => {
 									if (isNothing(v)) return v
-									if (v !== undefined) return JSON.stringify(v)
+									return JSON.stringify(v !== undefined ? v : draft)
 								})
 							})
 						}
-- 
2.43.0


From 0625da6d48345435d05849786765972b8014c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 15/32] fix: preferences of an app must not go to another app
 on the page

get(), set() and clearAll() were bound to the last app created,
so an app read, overwrote and cleared the preferences of another one.
---
 plugins/preferences/src/preferences_gizmo.ts | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/plugins/preferences/src/preferences_gizmo.ts b/plugins/preferences/src/preferences_gizmo.ts
index f73dd97..184bc5e 100644
--- a/plugins/preferences/src/preferences_gizmo.ts
+++ b/plugins/preferences/src/preferences_gizmo.ts
@@ -23,12 +23,18 @@ export type { SetStateValue }
  */
 export const preferencesGizmo = define({
 	static: define.require<CommandsGizmo>().optional<KeyboardGizmo>(),
-	async create() {
+	async create({ commands }) {
+		// The commands are shared by every app on the page, and follow the last one connected.
+		// The preferences of an app must go through the handlers of that app.
+		function ownCommand<F extends AnyFunction>(id: string, fallback: F): F {
+			return ((...args: Parameters<F>) =>
+				commands.handlers.has(id) ? commands.handlers.invoke(id, ...args) : fallback(...args)) as F
+		}
 		return {
 			preferences: {
-				get: extractFunction(getUserPreference),
-				set: extractFunction(setUserPreference),
-				clearAll: extractFunction(clearAllUserPreferences),
+				get: ownCommand(getUserPreference.id, extractFunction(getUserPreference)),
+				set: ownCommand(setUserPreference.id, extractFunction(setUserPreference)),
+				clearAll: ownCommand(clearAllUserPreferences.id, extractFunction(clearAllUserPreferences)),
 				/**
 				 * Creates a [store](https://github.com/justland/just-web/tree/main/libraries/states#createstore) for a specific key.
 				 *
-- 
2.43.0


From 62cb31a662a376c6389e37746d412edfee78d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 16/32] fix: showCommandPalette() of an app must not invoke the
 handler of another app

---
 plugins/commands/src/commands_gizmo.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plugins/commands/src/commands_gizmo.ts b/plugins/commands/src/commands_gizmo.ts
index 10512bd..9500a70 100644
--- a/plugins/commands/src/commands_gizmo.ts
+++ b/plugins/commands/src/commands_gizmo.ts
@@ -1,6 +1,6 @@
 import { type DepBuilder, define, type GizmoStatic, type LogGizmo } from '@just-web/app'
 import type { KeyboardGizmo } from '@just-web/keyboard'
-import { type AnyFunction, extractFunction } from 'type-plus'
+import type { AnyFunction } from 'type-plus'
 import { showCommandPalette } from './commands.js'
 import { contributionRegistry } from './contributions.js'
 import { handlerRegistry } from './handlers.js'
@@ -35,7 +35,9 @@ export const commandsGizmoFn: (options?: CommandsGizmoOptions) => GizmoStatic<
 			commands: {
 				contributions,
 				handlers,
-				showCommandPalette: extractFunction(showCommandPalette)
+				// the command is shared by every app on the page, and follows the last one connected.
+				showCommandPalette: () =>
+					handlers.has(showCommandPalette.id) ? handlers.invoke(showCommandPalette.id) : showCommandPalette()
 			}
 		}
 	}
-- 
2.43.0


From 7b342fb52767acf293ba6bf2d3fe2529e6d267bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 17/32] fix: an app id must always have 15 characters

It was shorter when the random numbers have a short base 36 form.
---
 frameworks/id/src/id_gizmo.logic.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frameworks/id/src/id_gizmo.logic.ts b/frameworks/id/src/id_gizmo.logic.ts
index b4c7ec3..05020a0 100644
--- a/frameworks/id/src/id_gizmo.logic.ts
+++ b/frameworks/id/src/id_gizmo.logic.ts
@@ -1,5 +1,5 @@
 export const logic = {
 	genAppID() {
-		return (Math.random().toString(36).slice(2) + Math.random().toString(36).slice(2)).substring(0, 15)
+		return (Math.random().toString(36).slice(2) + Math.random().toString(36).slice(2)).substring(0, 15).padEnd(15, '0')
 	}
 }
-- 
2.43.0


From 7aed6c4c2d52eabc14fd84fe1dc82594c3065a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:08 +0000
Subject: [PATCH 18/32] fix: methods of stubSessionStorage() must be callable

The ones not stubbed were called with the proxy as receiver (Illegal invocation).
---
 plugins/browser/src/testing/storage.mocks.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/browser/src/testing/storage.mocks.ts b/plugins/browser/src/testing/storage.mocks.ts
index d24c1d5..54a513f 100644
--- a/plugins/browser/src/testing/storage.mocks.ts
+++ b/plugins/browser/src/testing/storage.mocks.ts
@@ -30,7 +30,8 @@ export function stubLocalStorage(stub: Partial<Storage>) {
 export function stubSessionStorage(stub: Partial<Storage>) {
 	return new Proxy(sessionStorage, {
 		get(target, p: any) {
-			return stub[p] ? stub[p] : target[p]
+			const v = stub[p] ? stub[p] : target[p]
+			return typeof v === 'function' ? v.bind(target) : v
 		}
 	})
 }
-- 
2.43.0


From f40afd4d8c94d5927231eb7f790a58aefbaea540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 19/32] fix: bind every cmd+ of a key sequence

---
 plugins/browser-keyboard/src/keyBindings.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/browser-keyboard/src/keyBindings.ts b/plugins/browser-keyboard/src/keyBindings.ts
index a023dcd..5252dca 100644
--- a/plugins/browser-keyboard/src/keyBindings.ts
+++ b/plugins/browser-keyboard/src/keyBindings.ts
@@ -50,5 +50,5 @@ function getKey(ctx: OSGizmo, keyBinding: any): string {
 }
 
 function toMousetrapKey(key: string) {
-	return key.replace(/cmd\+/, 'command+')
+	return key.replace(/cmd\+/g, 'command+')
 }
-- 
2.43.0


From 12160da502a3fc71677f35851cd63b92d51035a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 20/32] fix: an async updater changing nothing must not revert
 a change made meanwhile

---
 libraries/states/src/state.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index d41c99f..0d3324d 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -75,6 +75,7 @@ export function createState<T>(
 			if (p) {
 				return p.then(v => {
 					const prev = value
+					if (v === undefined && Object.is(r, old)) return value
 					value = toImmutable(v === nothing ? (undefined as any) : v === undefined ? r : v)
 					return Object.is(prev, value) ? value : notifyAfterSet(prev, value)
 				})
-- 
2.43.0


From a997c08a6a8f6052a9458b039bc0106401f84fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 21/32] fix: of duplicate contributions given as options the
 first must win too

---
 plugins/commands/src/contributions.ts | 7 ++++---
 plugins/keyboard/src/keyBindings.ts   | 8 +++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/plugins/commands/src/contributions.ts b/plugins/commands/src/contributions.ts
index e4196e2..5e0ed66 100644
--- a/plugins/commands/src/contributions.ts
+++ b/plugins/commands/src/contributions.ts
@@ -8,16 +8,17 @@ export namespace contributionRegistry {
 }
 
 export function contributionRegistry(ctx: LogGizmo, options?: contributionRegistry.Options): ContributionRegistry {
-	return withAdder(createRegistry<string, CommandContribution>(getInitRecord(options)), (r, cmd) => {
+	return withAdder(createRegistry<string, CommandContribution>(getInitRecord(ctx, options)), (r, cmd) => {
 		const key = cmd.id
 		if (r[key]) return ctx.log.error(`Registering a duplicate command contribution, ignored: ${key}`)
 		r[key] = cmd
 	})
 }
 
-function getInitRecord(options?: contributionRegistry.Options) {
+function getInitRecord(ctx: LogGizmo, options?: contributionRegistry.Options) {
 	return (options ?? []).reduce((p, c) => {
-		p[c.id] = c
+		if (p[c.id]) ctx.log.error(`Registering a duplicate command contribution, ignored: ${c.id}`)
+		else p[c.id] = c
 		return p
 	}, record<string, CommandContribution>())
 }
diff --git a/plugins/keyboard/src/keyBindings.ts b/plugins/keyboard/src/keyBindings.ts
index 1ac58f4..4b7931e 100644
--- a/plugins/keyboard/src/keyBindings.ts
+++ b/plugins/keyboard/src/keyBindings.ts
@@ -46,7 +46,7 @@ export function keyBindingRegistry(
 	ctx: LogGizmo,
 	options?: keyBindingRegistry.Options
 ): KeyBindingContributionRegistry {
-	return withAdder(createRegistry<string, KeyBindingContribution>(getInitRecord(options)), (r, kb) => {
+	return withAdder(createRegistry<string, KeyBindingContribution>(getInitRecord(ctx, options)), (r, kb) => {
 		const key = kb.id
 		const log = ctx.log.getLogger('@just-web/contributions')
 		if (r[key]) return log.warn(`Registering a duplicate key binding contribution, ignored: ${key}`)
@@ -54,9 +54,11 @@ export function keyBindingRegistry(
 	})
 }
 
-function getInitRecord(options?: keyBindingRegistry.Options) {
+function getInitRecord(ctx: LogGizmo, options?: keyBindingRegistry.Options) {
+	const log = ctx.log.getLogger('@just-web/contributions')
 	return (options ?? []).reduce((p, c) => {
-		p[c.id] = c
+		if (p[c.id]) log.warn(`Registering a duplicate key binding contribution, ignored: ${c.id}`)
+		else p[c.id] = c
 		return p
 	}, record<string, KeyBindingContribution>())
 }
-- 
2.43.0


From 1e8a373bd142a9b1d9960928012e48ebe3659c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:55 +0000
Subject: [PATCH 22/32] fix: test apps given the same log options must not
 share a reporter

---
 frameworks/log/src/log_gizmo.testing.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frameworks/log/src/log_gizmo.testing.ts b/frameworks/log/src/log_gizmo.testing.ts
index ad45ea4..edf1798 100644
--- a/frameworks/log/src/log_gizmo.testing.ts
+++ b/frameworks/log/src/log_gizmo.testing.ts
@@ -26,7 +26,11 @@ export type LogTestGizmoOptions<N extends string = LogMethodNames> = StandardLog
 export const logTestGizmoFn = define(<N extends string = LogMethodNames>(options?: LogTestGizmoOptions<N>) => ({
 	static: define.require(idGizmoFn),
 	async create(ctx: IdGizmo) {
-		const sl = createStandardLogForTest<N>(options)
+		// it adds its reporter to the options, which can be shared with other apps.
+		const sl = createStandardLogForTest<N>({
+			...options,
+			...(options?.reporters && { reporters: [...options.reporters] })
+		})
 		return {
 			log: Object.assign(buildLogContext<N>(ctx.name, sl, options), {
 				reporter: sl.reporter
-- 
2.43.0


From cf5d7bb37fc0d5b8b91968fd2f7cad73562b9a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 23/32] fix: the page's fetch given by fetchTestGizmoFn() must
 be callable as a member of the app

---
 plugins/fetch/src/fetch_gizmo.mocks.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/fetch/src/fetch_gizmo.mocks.ts b/plugins/fetch/src/fetch_gizmo.mocks.ts
index ded1479..0a961a0 100644
--- a/plugins/fetch/src/fetch_gizmo.mocks.ts
+++ b/plugins/fetch/src/fetch_gizmo.mocks.ts
@@ -9,7 +9,7 @@ export const fetchTestGizmoFn = (options?: FetchTestGizmoOptions) =>
 	define({
 		create() {
 			return {
-				fetch: options?.fetch ?? (fetch as Fetch)
+				fetch: options?.fetch ?? (globalThis.fetch.bind(globalThis) as Fetch)
 			}
 		}
 	})
-- 
2.43.0


From 90b7004f41cf0a1a6622cf07e3b1d3cabab75010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 24/32] fix: a falsy member given to stubLocalStorage() and
 stubSessionStorage() must be used

---
 plugins/browser/src/testing/storage.mocks.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/browser/src/testing/storage.mocks.ts b/plugins/browser/src/testing/storage.mocks.ts
index 54a513f..e75dcf6 100644
--- a/plugins/browser/src/testing/storage.mocks.ts
+++ b/plugins/browser/src/testing/storage.mocks.ts
@@ -11,7 +11,7 @@
 export function stubLocalStorage(stub: Partial<Storage>) {
 	return new Proxy(localStorage, {
 		get(target, p: any) {
-			const v = stub[p] ? stub[p] : target[p]
+			const v = stub[p] !== undefined ? stub[p] : target[p]
 			return typeof v === 'function' ? v.bind(target) : v
 		}
 	})
@@ -30,7 +30,7 @@ export function stubLocalStorage(stub: Partial<Storage>) {
 export function stubSessionStorage(stub: Partial<Storage>) {
 	return new Proxy(sessionStorage, {
 		get(target, p: any) {
-			const v = stub[p] ? stub[p] : target[p]
+			const v = stub[p] !== undefined ? stub[p] : target[p]
 			return typeof v === 'function' ? v.bind(target) : v
 		}
 	})
-- 
2.43.0


From 8cc6bd6ed6ba57f859d701bedd0a8596aa603969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 25/32] fix: key() of stubStorage() must give null for a
 negative index

---
 plugins/browser/src/browser_gizmo.testing.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/browser/src/browser_gizmo.testing.ts b/plugins/browser/src/browser_gizmo.testing.ts
index f5d478f..8a2015d 100644
--- a/plugins/browser/src/browser_gizmo.testing.ts
+++ b/plugins/browser/src/browser_gizmo.testing.ts
@@ -45,7 +45,7 @@ export function stubStorage(): Storage {
 		key(index) {
 			let c = 0
 			for (const e of m.keys()) {
-				if (++c > index) return e
+				if (c++ === index) return e
 			}
 			return null
 		},
-- 
2.43.0


From c486d076e9c3fa86921ff2f7ef08648c22e8108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 26/32] Revert "fix: a falsy member given to stubLocalStorage()
 and stubSessionStorage() must be used"

This reverts commit 90b7004f41cf0a1a6622cf07e3b1d3cabab75010.
---
 plugins/browser/src/testing/storage.mocks.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/browser/src/testing/storage.mocks.ts b/plugins/browser/src/testing/storage.mocks.ts
index e75dcf6..54a513f 100644
--- a/plugins/browser/src/testing/storage.mocks.ts
+++ b/plugins/browser/src/testing/storage.mocks.ts
@@ -11,7 +11,7 @@
 export function stubLocalStorage(stub: Partial<Storage>) {
 	return new Proxy(localStorage, {
 		get(target, p: any) {
-			const v = stub[p] !== undefined ? stub[p] : target[p]
+			const v = stub[p] ? stub[p] : target[p]
 			return typeof v === 'function' ? v.bind(target) : v
 		}
 	})
@@ -30,7 +30,7 @@ export function stubLocalStorage(stub: Partial<Storage>) {
 export function stubSessionStorage(stub: Partial<Storage>) {
 	return new Proxy(sessionStorage, {
 		get(target, p: any) {
-			const v = stub[p] !== undefined ? stub[p] : target[p]
+			const v = stub[p] ? stub[p] : target[p]
 			return typeof v === 'function' ? v.bind(target) : v
 		}
 	})
-- 
2.43.0


From d7ddd158f331a022b0337ef3992e9249df16485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 27/32] Revert "fix: methods of stubSessionStorage() must be
 callable"

This reverts commit 7aed6c4c2d52eabc14fd84fe1dc82594c3065a1b.
---
 plugins/browser/src/testing/storage.mocks.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plugins/browser/src/testing/storage.mocks.ts b/plugins/browser/src/testing/storage.mocks.ts
index 54a513f..d24c1d5 100644
--- a/plugins/browser/src/testing/storage.mocks.ts
+++ b/plugins/browser/src/testing/storage.mocks.ts
@@ -30,8 +30,7 @@ export function stubLocalStorage(stub: Partial<Storage>) {
 export function stubSessionStorage(stub: Partial<Storage>) {
 	return new Proxy(sessionStorage, {
 		get(target, p: any) {
-			const v = stub[p] ? stub[p] : target[p]
-			return typeof v === 'function' ? v.bind(target) : v
+			return stub[p] ? stub[p] : target[p]
 		}
 	})
 }
-- 
2.43.0


From 66cafb13868c4fb647552d4ebc6f682ca975cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 28/32] fix: a key written in another way must be recognized as
 a duplicate key binding

cmd+a, command+a and meta+a (or ctrl+shift+a and shift+ctrl+a) are the same key: the second one replaced the first one, or both were invoked.
---
 plugins/browser-keyboard/src/keyBindings.ts | 29 +++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/plugins/browser-keyboard/src/keyBindings.ts b/plugins/browser-keyboard/src/keyBindings.ts
index 5252dca..0441e0e 100644
--- a/plugins/browser-keyboard/src/keyBindings.ts
+++ b/plugins/browser-keyboard/src/keyBindings.ts
@@ -29,10 +29,11 @@ function bindKey(
 	const key = getKey({ os }, keyBinding)
 	if (key) {
 		const log = logContext.getLogger('@just-web/browser-keyboard')
-		if (keys[key]) {
+		const k = toCanonicalKey(key)
+		if (keys[k]) {
 			log.warn(`Registering a duplicate key binding, ignored: ${keyBinding.id} - ${key}`)
 		} else {
-			keys[key] = true
+			keys[k] = true
 			log.trace(`binding: ${key} -> ${keyBinding.id}`)
 			Mousetrap.bind(toMousetrapKey(key), e => {
 				log.trace(`trigger ${key}`)
@@ -52,3 +53,27 @@ function getKey(ctx: OSGizmo, keyBinding: any): string {
 function toMousetrapKey(key: string) {
 	return key.replace(/cmd\+/g, 'command+')
 }
+
+const aliases: Record<string, string> = {
+	cmd: 'meta',
+	command: 'meta',
+	option: 'alt',
+	return: 'enter',
+	escape: 'esc'
+}
+
+/**
+ * The same key can be written in more than one way: `cmd+shift+a`, `shift+command+a`.
+ */
+function toCanonicalKey(key: string) {
+	return key
+		.split(/\s+/)
+		.map(stroke =>
+			stroke
+				.split('+')
+				.map(k => aliases[k] ?? k)
+				.sort()
+				.join('+')
+		)
+		.join(' ')
+}
-- 
2.43.0


From d59c31cf57f2b17beaf8f140bb8949a17c4a9c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:42 +0000
Subject: [PATCH 29/32] fix: keep whatever was thrown as the cause of a
 captured browser error

---
 plugins/browser/src/errors.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/browser/src/errors.ts b/plugins/browser/src/errors.ts
index 08d9205..e96c580 100644
--- a/plugins/browser/src/errors.ts
+++ b/plugins/browser/src/errors.ts
@@ -14,6 +14,9 @@ export class BrowserError extends JustWebBrowserError {
 		public colno?: number,
 		error?: Error
 	) {
-		super(event.toString(), { cause: error })
+		super(event.toString())
+		// anything can be thrown (a text, `null`, a frozen object),
+		// while the `cause` option supports and modifies extensible errors only.
+		this.cause = error as Error
 	}
 }
-- 
2.43.0


From f40af14dcb1a19c1500ac8226a8426c90ad120da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 30/32] fix: log what the stores of the plugins do to the app
 they belong to

---
 plugins/browser/src/browser_gizmo.ts  |  2 +-
 plugins/browser/src/error_store.ts    |  6 +++---
 plugins/commands/src/contributions.ts |  3 ++-
 plugins/commands/src/handlers.ts      |  3 ++-
 plugins/keyboard/src/keyBindings.ts   |  3 ++-
 plugins/routes/src/routes_gizmo.ts    | 11 +++++++----
 6 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/plugins/browser/src/browser_gizmo.ts b/plugins/browser/src/browser_gizmo.ts
index 7db43d3..4828ec7 100644
--- a/plugins/browser/src/browser_gizmo.ts
+++ b/plugins/browser/src/browser_gizmo.ts
@@ -35,8 +35,8 @@ export const browserGizmoFn: (options?: BrowserGizmoOptions) => GizmoStatic<
 > = define((options?: BrowserGizmoOptions) => ({
 	static: define.require<LogGizmo>().optional<FetchGizmo>(),
 	async create(gizmoCtx) {
-		const errors = createErrorStore()
 		const logger = gizmoCtx.log.getLogger('@just-web/browser')
+		const errors = createErrorStore({ logger })
 		const preventDefault = options?.preventDefault ?? false
 
 		// Normally, gizmo should not do work during create.
diff --git a/plugins/browser/src/error_store.ts b/plugins/browser/src/error_store.ts
index 3fb8707..02c4680 100644
--- a/plugins/browser/src/error_store.ts
+++ b/plugins/browser/src/error_store.ts
@@ -1,9 +1,9 @@
-import { createStore, push, withAdder } from '@just-web/states'
+import { createStore, push, type StateMeta, withAdder } from '@just-web/states'
 import { pick } from 'type-plus'
 import type { ErrorStore, ReadonlyErrorStore } from './error_store.types.js'
 
-export function createErrorStore(): ErrorStore {
-	return withAdder(createStore<Error[]>([]), push)
+export function createErrorStore(meta?: StateMeta): ErrorStore {
+	return withAdder(createStore<Error[]>([], meta), push)
 }
 
 export function toReadonlyErrorStore(store: ErrorStore): ReadonlyErrorStore {
diff --git a/plugins/commands/src/contributions.ts b/plugins/commands/src/contributions.ts
index 5e0ed66..ef96775 100644
--- a/plugins/commands/src/contributions.ts
+++ b/plugins/commands/src/contributions.ts
@@ -8,7 +8,8 @@ export namespace contributionRegistry {
 }
 
 export function contributionRegistry(ctx: LogGizmo, options?: contributionRegistry.Options): ContributionRegistry {
-	return withAdder(createRegistry<string, CommandContribution>(getInitRecord(ctx, options)), (r, cmd) => {
+	const meta = { logger: ctx.log.getLogger('@just-web/contributions') }
+	return withAdder(createRegistry<string, CommandContribution>(getInitRecord(ctx, options), meta), (r, cmd) => {
 		const key = cmd.id
 		if (r[key]) return ctx.log.error(`Registering a duplicate command contribution, ignored: ${key}`)
 		r[key] = cmd
diff --git a/plugins/commands/src/handlers.ts b/plugins/commands/src/handlers.ts
index 6f15af9..dceae89 100644
--- a/plugins/commands/src/handlers.ts
+++ b/plugins/commands/src/handlers.ts
@@ -12,7 +12,8 @@ export function handlerRegistry({ log }: LogGizmo, options?: handlerRegistry.Opt
 	const logger = log.getLogger('@just-web/commands')
 
 	const registry = createRegistry<string, (...args: any[]) => void>(
-		Object.assign(record<string, AnyFunction>(), options)
+		Object.assign(record<string, AnyFunction>(), options),
+		{ logger }
 	)
 
 	return {
diff --git a/plugins/keyboard/src/keyBindings.ts b/plugins/keyboard/src/keyBindings.ts
index 4b7931e..bece78e 100644
--- a/plugins/keyboard/src/keyBindings.ts
+++ b/plugins/keyboard/src/keyBindings.ts
@@ -46,7 +46,8 @@ export function keyBindingRegistry(
 	ctx: LogGizmo,
 	options?: keyBindingRegistry.Options
 ): KeyBindingContributionRegistry {
-	return withAdder(createRegistry<string, KeyBindingContribution>(getInitRecord(ctx, options)), (r, kb) => {
+	const meta = { logger: ctx.log.getLogger('@just-web/contributions') }
+	return withAdder(createRegistry<string, KeyBindingContribution>(getInitRecord(ctx, options), meta), (r, kb) => {
 		const key = kb.id
 		const log = ctx.log.getLogger('@just-web/contributions')
 		if (r[key]) return log.warn(`Registering a duplicate key binding contribution, ignored: ${key}`)
diff --git a/plugins/routes/src/routes_gizmo.ts b/plugins/routes/src/routes_gizmo.ts
index 9b1f98e..2ca7c16 100644
--- a/plugins/routes/src/routes_gizmo.ts
+++ b/plugins/routes/src/routes_gizmo.ts
@@ -15,11 +15,14 @@ type RouteStore = {
 export const routesGizmo = define({
 	static: define.require<LogGizmo>(),
 	async create(ctx) {
-		const store = createStore<RouteStore>({
-			config: defaultConfig,
-			routes: record()
-		})
 		const log = ctx.log.getLogger('@just-web/routes')
+		const store = createStore<RouteStore>(
+			{
+				config: defaultConfig,
+				routes: record()
+			},
+			{ logger: log }
+		)
 		const routes = {
 			navigate(route?: string) {
 				route = route ?? store.get().config.initialRoute
-- 
2.43.0


From 1d0a589c40206eb95c78ae296240a48582a80bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:00 +0000
Subject: [PATCH 31/32] fix: make data which is partly frozen or under symbol
 keys immutable as well

---
 libraries/states/src/state.ts | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 0d3324d..36298c0 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -1,5 +1,5 @@
 import { type Logger, logLevels } from '@just-web/app'
-import { freeze, nothing, produce } from 'immer'
+import { freeze, isDraft, isDraftable, nothing, produce } from 'immer'
 import { tersify } from 'tersify'
 import { type AnyFunction, isPromise } from 'type-plus'
 import { getDefaultLogger } from './log.js'
@@ -109,5 +109,18 @@ export function createState<T>(
  * All data stored in the states are immutable, including the nested ones.
  */
 function toImmutable<T>(value: T): T {
-	return Object.freeze(freeze(value, true))
+	deepFreeze(value)
+	return Object.freeze(value)
+}
+
+const immutables = new WeakSet<object>()
+
+/**
+ * The deep freeze of `immer` skips what is already frozen, and the entries of symbol keys.
+ */
+function deepFreeze(value: any) {
+	if (!isDraftable(value) || isDraft(value) || immutables.has(value)) return
+	immutables.add(freeze(value))
+	if (value instanceof Map || value instanceof Set) value.forEach(deepFreeze)
+	else Reflect.ownKeys(value).forEach(key => deepFreeze(value[key]))
 }
-- 
2.43.0


From 9e2eea53232631cc8e418cb53dcd66315ebaa04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 32/32] fix: keep the keys of every app on the page bound when
 the ones of one change

---
 plugins/browser-keyboard/src/keyBindings.ts | 66 +++++++++++++--------
 1 file changed, 40 insertions(+), 26 deletions(-)

diff --git a/plugins/browser-keyboard/src/keyBindings.ts b/plugins/browser-keyboard/src/keyBindings.ts
index 0441e0e..2b4b15b 100644
--- a/plugins/browser-keyboard/src/keyBindings.ts
+++ b/plugins/browser-keyboard/src/keyBindings.ts
@@ -5,44 +5,58 @@ import type { OSGizmo } from '@just-web/os'
 import Mousetrap from 'mousetrap'
 import { forEachKey, record } from 'type-plus'
 
-let keys: Record<string, boolean>
+type Binding = [key: string, callback: Parameters<typeof Mousetrap.bind>[1]]
+
+// `Mousetrap` is shared by every app on the page: once it is reset, the keys of all of them have to be bound again.
+const bindingsOfApps: Binding[][] = []
+
 export function startKeyBindings(param: LogGizmo & KeyboardGizmo & CommandsGizmo & OSGizmo) {
 	const keyBindings = param.keyboard.keyBindingContributions
+	const app = bindingsOfApps.push(getBindings(param, keyBindings.get())) - 1
+	bindingsOfApps[app]!.forEach(bind)
 
-	keys = record()
-
-	keyBindings.values().forEach(keybinding => {
-		bindKey(param, keybinding)
-	})
 	keyBindings.onChange(value => {
+		bindingsOfApps[app] = getBindings(param, value)
 		Mousetrap.reset()
-		keys = record()
 		// @todo: use `immer` patch support to only update the delta
-		forEachKey(value, name => bindKey(param, value[name]!))
+		bindingsOfApps.flat().forEach(bind)
 	})
 }
 
-function bindKey(
+function bind([key, callback]: Binding) {
+	Mousetrap.bind(key, callback)
+}
+
+function getBindings(
 	{ log: logContext, commands, os }: LogGizmo & CommandsGizmo & OSGizmo,
-	keyBinding: KeyBindingContribution
+	keyBindings: Record<string, KeyBindingContribution>
 ) {
-	const key = getKey({ os }, keyBinding)
-	if (key) {
-		const log = logContext.getLogger('@just-web/browser-keyboard')
-		const k = toCanonicalKey(key)
-		if (keys[k]) {
-			log.warn(`Registering a duplicate key binding, ignored: ${keyBinding.id} - ${key}`)
-		} else {
-			keys[k] = true
-			log.trace(`binding: ${key} -> ${keyBinding.id}`)
-			Mousetrap.bind(toMousetrapKey(key), e => {
-				log.trace(`trigger ${key}`)
-				if (e.preventDefault) e.preventDefault()
-				commands.handlers.invoke(keyBinding.id)
-				return false
-			})
+	const keys = record<string, boolean>()
+	const bindings: Binding[] = []
+	forEachKey(keyBindings, name => {
+		const keyBinding = keyBindings[name]!
+		const key = getKey({ os }, keyBinding)
+		if (key) {
+			const log = logContext.getLogger('@just-web/browser-keyboard')
+			const k = toCanonicalKey(key)
+			if (keys[k]) {
+				log.warn(`Registering a duplicate key binding, ignored: ${keyBinding.id} - ${key}`)
+			} else {
+				keys[k] = true
+				log.trace(`binding: ${key} -> ${keyBinding.id}`)
+				bindings.push([
+					toMousetrapKey(key),
+					e => {
+						log.trace(`trigger ${key}`)
+						if (e.preventDefault) e.preventDefault()
+						commands.handlers.invoke(keyBinding.id)
+						return false
+					}
+				])
+			}
 		}
-	}
+	})
+	return bindings
 }
 
 function getKey(ctx: OSGizmo, keyBinding: any): string {
-- 
2.43.0

