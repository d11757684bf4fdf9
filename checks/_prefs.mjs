// Shared pieces of the checks of preferences.
export const entries = {
	app: ['@just-web/app', 'justApp', 'define', 'createMemoryLogReporter'],
	appT: ['@just-web/app/testing', 'justTestApp'],
	states: ['@just-web/states', 'nothing'],
	commands: ['@just-web/commands', 'command', 'commandsGizmoFn', 'showCommandPalette'],
	keyboard: ['@just-web/keyboard', 'keyboardGizmoFn'],
	prefs: ['@just-web/preferences', 'memoryPreferencesGizmo', 'getUserPreference', 'setUserPreference', 'clearAllUserPreferences'],
	browser: ['@just-web/browser', 'browserGizmoFn'],
	browserT: ['@just-web/browser/testing', 'browserTestGizmoFn', 'stubStorage'],
	bprefs: ['@just-web/browser-preferences', 'browserPreferencesGizmo']
}

/** An app with preferences in memory or in the browser. */
export function makePrefs(m, kind, { name = 'n', keyboard = true, storage, logLevel } = {}) {
	const reporter = m.app.createMemoryLogReporter({ id: `mem-${name}` })
	let b = m.appT.justTestApp({ name, log: { reporters: [reporter], ...(logLevel !== undefined && { logLevel }) } })
	if (keyboard) b = b.with(m.keyboard.keyboardGizmoFn())
	b = b.with(m.commands.commandsGizmoFn())
	if (kind === 'memory') b = b.with(m.prefs.memoryPreferencesGizmo)
	else b = b.with(storage ? m.browserT.browserTestGizmoFn({ localStorage: storage }) : m.browser.browserGizmoFn()).with(m.bprefs.browserPreferencesGizmo)
	return b.create()
}

export const ROUTES = ['app', 'commands', 'handlers']
/** get, set and clearAll through the app, the shared commands, or the handlers of the app. */
export function route(m, app, how) {
	switch (how) {
		case 'app':
			return { get: app.preferences.get, set: app.preferences.set, clearAll: app.preferences.clearAll }
		case 'commands':
			return { get: m.prefs.getUserPreference, set: m.prefs.setUserPreference, clearAll: m.prefs.clearAllUserPreferences }
		case 'handlers': {
			const via = id => (...args) => app.commands.handlers.invoke(id, ...args)
			return {
				get: via('just-web.getUserPreference'),
				set: via('just-web.setUserPreference'),
				clearAll: via('just-web.clearAllUserPreferences')
			}
		}
	}
}

export const HOSTILE_KEYS = ['a', 'b', '', ' ', ':', 'a:b', 'n:a', 'constructor', 'toString', '__proto__', 'hasOwnProperty', '0', 'length', 'é', '\u0000', 'key', 'getItem']
export const TEXTS = ['x', '', 'é', '日本', '😀', '0', 'null', 'undefined', '{"a":1}', '"q"', 'eA==', '%20', '\u0000', ' \n']

/**
 * The operations on one key: apply to the real thing, and to the reference (a Map).
 */
export function operations(m) {
	const { nothing } = m.states
	const to = v => ({ do: (r, k) => r.set(k, v), ref: (M, k) => void M.set(k, v), what: `set(${JSON.stringify(v)})` })
	return {
		to,
		'set undefined': { do: (r, k) => r.set(k, undefined), ref: (M, k) => void M.delete(k), what: 'set(undefined)' },
		'set nothing': { do: (r, k) => r.set(k, nothing), ref: (M, k) => void M.delete(k), what: 'set(nothing)' },
		append: {
			do: (r, k, seen) => r.set(k, v => (seen.push(v), `${v}+`)),
			ref: (M, k, seen) => {
				seen.push(M.get(k))
				M.set(k, `${M.get(k)}+`)
			},
			what: 'set(v => v+)'
		},
		'to empty': { do: (r, k, seen) => r.set(k, v => (seen.push(v), '')), ref: (M, k, seen) => (seen.push(M.get(k)), M.set(k, '')), what: "set(() => '')" },
		same: {
			do: (r, k, seen) => r.set(k, v => (seen.push(v), v)),
			ref: (M, k, seen) => void seen.push(M.get(k)),
			what: 'set(v => v)'
		},
		'fn undefined': { do: (r, k, seen) => r.set(k, v => void seen.push(v)), ref: (M, k, seen) => (seen.push(M.get(k)), M.delete(k)), what: 'set(() => undefined)' },
		'fn nothing': { do: (r, k, seen) => r.set(k, v => (seen.push(v), nothing)), ref: (M, k, seen) => (seen.push(M.get(k)), M.delete(k)), what: 'set(() => nothing)' }
	}
}
export const OPS = ['set undefined', 'set nothing', 'append', 'to empty', 'same', 'fn undefined', 'fn nothing']
