// C29: the browser preset provides the same services as its parts assembled by hand.
import { createStorage } from '../lib/env.mjs'
import { show } from '../lib/values.mjs'

const entries = {
	app: ['@just-web/app', 'justApp', 'define', 'createMemoryLogReporter', 'logLevels'],
	appT: ['@just-web/app/testing', 'justTestApp'],
	commands: ['@just-web/commands', 'command', 'commandsGizmoFn'],
	keyboard: ['@just-web/keyboard', 'keyboardGizmoFn'],
	states: ['@just-web/states', 'nothing'],
	prefs: ['@just-web/preferences', 'getUserPreference', 'setUserPreference', 'clearAllUserPreferences', 'memoryPreferencesGizmo'],
	browser: ['@just-web/browser', 'browserGizmoFn'],
	browserT: ['@just-web/browser/testing', 'browserTestGizmoFn', 'stubStorage'],
	bprefs: ['@just-web/browser-preferences', 'browserPreferencesGizmo'],
	history: ['@just-web/history', 'historyGizmoFn'],
	historyT: ['@just-web/history/testing', 'createMemoryHistory'],
	presets: ['@just-web/presets-browser', 'presetsBrowserGizmoFn'],
	presetsT: ['@just-web/presets-browser/testing', 'presetsBrowserTestGizmoFn']
}

/** One of the two sides: an app on a page of its own, with the preset or with its parts. */
async function makeSide(c, o, preset) {
	const stored = { 'x:k': btoa('stored'), other: 'foreign', 'y:k': btoa('of y') }
	const local = createStorage(stored)
	const m = c.load({ local })
	const side = { m, local, seen: {}, heard: [], n: 0 }
	const reporter = m.app.createMemoryLogReporter({ id: 'mem' })
	side.reporter = reporter
	const opts = { name: 'x', log: { reporters: [reporter], logLevel: m.app.logLevels.all } }
	let b = (o.real ? m.app.justApp(opts) : m.appT.justTestApp(opts)).with(m.commands.commandsGizmoFn())
	if (o.keyboard) b = b.with(m.keyboard.keyboardGizmoFn())
	const mine = { push() {}, location: { pathname: '/mine' } }
	switch (o.earlier) {
		case 'fetch':
			b = b.with(m.app.define({ create: async () => ({ fetch: async (...a) => ({ from: 'earlier', args: a }) }) }))
			break
		case 'services':
			b = b.with(m.app.define({ create: async () => ({ history: mine, preferences: { get: () => 'mine' }, extra: { a: 1 }, browser: { errors: 0 } }) }))
			break
		case 'memory preferences':
			b = b.with(m.prefs.memoryPreferencesGizmo)
	}
	b = b.with(m.app.define({ create: async ctx => ((side.before = { ...ctx }), {}) }))
	const browser = {}
	if (o.preventDefault !== undefined) browser.preventDefault = o.preventDefault
	if (o.fetch) browser.fetch = async (...args) => ({ from: 'option', args })
	if (o.test) {
		if (o.stubs & 1) side.stubLocal = browser.localStorage = m.browserT.stubStorage()
		if (o.stubs & 2) browser.sessionStorage = m.browserT.stubStorage()
		if (o.stubs & 4) Object.assign(browser, { navigator: { language: 'xx' }, location: { href: 'http://stub/' } })
		if (side.stubLocal) for (const k of Object.keys(stored)) side.stubLocal.setItem(k, stored[k])
	}
	const history = o.history === 'memory' ? { history: m.historyT.createMemoryHistory({ initialEntries: ['/one', '/two'] }) } : undefined
	side.given = history?.history
	if (preset) {
		const options = o.noOptions ? undefined : {}
		if (options && (Object.keys(browser).length || o.empty)) options.browser = browser
		if (options && history) options.history = history
		b = b.with(o.test ? m.presetsT.presetsBrowserTestGizmoFn(options) : m.presets.presetsBrowserGizmoFn(options))
	} else {
		b = b.with(o.test ? m.browserT.browserTestGizmoFn(browser) : m.browser.browserGizmoFn(browser)).with(m.bprefs.browserPreferencesGizmo)
		b = b.with(m.history.historyGizmoFn(history ?? (o.test ? { history: m.historyT.createMemoryHistory() } : undefined)))
	}
	if (o.later) b = b.with(m.app.define({ create: async ctx => ((side.after = { ...ctx }), { later: 1, location: 'later' }) }))
	side.app = await b.create()
	side.app.browser.errors.onChange((v, p) => side.heard.push(['errors', v.length, p.length]))
	side.app.history.listen?.(u => side.heard.push(['history', u.action, u.location.pathname]))
	reporter.logs.length = 0
	return side
}

const OPS = {
	'set preference': s => (s.app.preferences.set('k', `v${s.n}`), s.app.preferences.get('k')),
	'set preference by function': s => (s.app.preferences.set('k', v => `${v}+${s.n}`), s.app.preferences.get('k')),
	'remove preference': s => (s.app.preferences.set('k', s.m.states.nothing), s.app.preferences.get('k', 'none')),
	'clear preferences': s => (s.app.preferences.clearAll(), s.app.preferences.get('k')),
	'preference store': s => {
		const st = s.app.preferences.createStore('s', { l: [] })
		st.set(d => void d.l.push(s.n))
		return [st.get(), s.app.preferences.get('s')]
	},
	'set preference by command': s => (s.app.commands.handlers.invoke('just-web.setUserPreference', 'k', `c${s.n}`), s.m.prefs.getUserPreference('k')),
	'clear preferences by command': s => (s.m.prefs.clearAllUserPreferences(), s.app.preferences.get('k')),
	'raise an error': s => {
		const ev = { type: 'error', message: `m${s.n}`, filename: 'f', lineno: s.n, colno: 2, error: new Error(`e${s.n}`), prevented: 0, preventDefault: () => void ev.prevented++ }
		s.m.page.win.dispatch('error', ev)
		return ev.prevented
	},
	'go to': s => (s.app.history.push(`/p${s.n}`), undefined),
	replace: s => (s.app.history.replace?.(`/r${s.n}`), undefined),
	back: s => (s.app.history.back?.(), undefined),
	fetch: async s => {
		const r = await s.app.fetch(`/f${s.n}`, { method: 'PUT' })
		return [r.from, r.args]
	},
	'set item': s => (s.app.browser.sessionStorage.setItem('z', `${s.n}`), undefined),
	'register command': s => {
		const n = s.n
		s.app.commands.handlers.register('cmd', a => [a, n])
		return s.app.commands.handlers.invoke('cmd', 1)
	},
	contribute: s => (s.app.commands.contributions.add({ id: 'x', title: `t${s.n}` }), s.app.keyboard?.keyBindingContributions.add({ id: 'x', key: 'a' }), undefined),
	log: s => (s.app.log.warn('w', s.n), undefined)
}
const members = (o, depth = 3) =>
	o === null || typeof o !== 'object' || depth === 0
		? typeof o
		: Array.isArray(o)
			? 'array'
			: Object.fromEntries(
					Reflect.ownKeys(o)
						.map(k => [String(k), members(o[k], depth - 1)])
						.sort((a, b) => (a[0] < b[0] ? -1 : 1))
				)
const SERVICES = ['browser', 'fetch', 'preferences', 'history']

function observe(s) {
	const { app } = s
	return {
		names: Object.keys(app).sort(),
		services: Object.fromEntries(SERVICES.filter(x => x !== 'browser').map(x => [x, members(app[x], 2)])),
		browser: Object.keys(app.browser).sort(),
		errors: app.browser.errors.get().map(e => [e.message, e.source, e.lineno, e.colno, e.cause?.message]),
		heard: s.heard,
		k: app.preferences.get('k'),
		d: app.preferences.get('d', 'default'),
		s: app.preferences.createStore('s', { l: [] }).get(),
		at: [app.history.location?.pathname, app.history.action],
		local: [...s.local.ctl.map].sort(),
		stub: s.stubLocal && Array.from({ length: s.stubLocal.length }, (_, i) => [s.stubLocal.key(i), s.stubLocal.getItem(s.stubLocal.key(i))]).sort(),
		session: [...s.m.page.session.ctl.map],
		fetches: s.m.page.fetches,
		handlers: app.commands.handlers.keys().map(String).sort(),
		contributions: { ...app.commands.contributions.get() },
		keys: app.keyboard && { ...app.keyboard.keyBindingContributions.get() },
		language: app.browser.navigator.language,
		href: app.browser.location.href,
		listeners: s.m.page.win.listeners.map(l => l.type).sort(),
		log: s.reporter.logs.filter(l => l.level <= s.m.app.logLevels.notice).map(l => [l.id, l.level, l.args.map(a => show(a)).join(' ')])
	}
}

async function sides(c, o) {
	const a = await makeSide(c, o, true)
	const b = await makeSide(c, o, false)
	// the identity, log, commands and keyboard of the app are the ones from before
	for (const s of [a, b]) {
		for (const k of ['name', 'id', 'log', 'commands', 'keyboard']) c.is(s.app[k], s.before[k], `app.${k} compared with before the ${s === a ? 'preset' : 'parts'}`)
		if (o.earlier === 'services') c.is(s.app.extra, s.before.extra, 'another service of the app')
		if (s.given) c.is(s.app.history, s.given, 'history of the app')
	}
	c.eq(Object.keys(a.after ?? {}).sort(), Object.keys(b.after ?? {}).sort(), 'services seen by the gizmo after')
	return [a, b]
}
async function compare(c, a, b, what) {
	const [x, y] = [observe(a), observe(b)]
	for (const k of Object.keys(x)) c.eq(x[k], y[k], `${k} with the preset, compared with its parts, ${what}`)
	return x
}

const configurations = {
	name: 'configurations',
	async: true,
	async run(c) {
		const o = { test: c.bool('test preset'), real: c.bool('real app') }
		o.preventDefault = c.pick('preventDefault', [undefined, true, false])
		o.fetch = c.bool('fetch')
		o.stubs = o.test ? c.choose('stubs', 8) : 0
		o.history = c.pick('history', ['default', 'memory'])
		o.keyboard = c.bool('keyboard')
		o.earlier = c.pick('earlier', ['none', 'fetch', 'services', 'memory preferences'])
		o.later = c.bool('later')
		if (o.preventDefault === undefined && !o.fetch && !o.stubs) {
			o.empty = c.bool('empty browser options')
			if (o.history === 'default' && !o.empty) o.noOptions = c.bool('no options')
		}
		const [a, b] = await sides(c, o)
		await compare(c, a, b, 'at first')
		for (const op of Object.keys(OPS)) {
			c.step(op)
			const r = [a, b].map(s => (s.n++, c.attempt(() => OPS[op](s))))
			const v = await Promise.all(r.map(x => x.value))
			c.eq([r[0].threw, v[0]], [r[1].threw, v[1]], `result of '${op}'`)
			const seen = await compare(c, a, b, `after '${op}'`)
			c.state(o, op, seen)
		}
		c.outcome(o)
	}
}
const histories = {
	name: 'histories',
	async: true,
	depth: { quick: 3, thorough: 4 },
	async run(c) {
		const o = { test: c.bool('test preset'), keyboard: true, history: c.pick('history', ['default', 'memory']), stubs: 0, preventDefault: true }
		if (o.test) o.stubs = c.pick('stubs', [0, 7])
		const ops = Array.from({ length: c.depth }, () => c.pick('op', Object.keys(OPS)))
		if (!c.mine()) return
		const [a, b] = await sides(c, o)
		for (const op of ops) {
			c.step(op)
			const r = [a, b].map(s => (s.n++, c.attempt(() => OPS[op](s))))
			const v = await Promise.all(r.map(x => x.value))
			c.eq([r[0].threw, v[0]], [r[1].threw, v[1]], `result of '${op}'`)
			const seen = await compare(c, a, b, `after '${op}'`)
			c.state(o, seen)
		}
		c.outcome(o)
	}
}
/** The test preset keeps to itself: two apps have a memory history each, and the page's history stays. */
const apart = {
	name: 'defaults of the test preset',
	async: true,
	async run(c) {
		const n = c.choose('moves', 4)
		const options = c.pick('options', [undefined, {}, { browser: {} }])
		const m = c.load()
		let moved = 0
		const { history: h } = m.env.env
		h.pushState = () => void moved++
		h.replaceState = () => void moved++
		const apps = []
		for (const name of ['p', 'q'])
			apps.push(await m.appT.justTestApp({ name }).with(m.commands.commandsGizmoFn()).with(m.presetsT.presetsBrowserTestGizmoFn(options)).create())
		c.step(`${n} moves`)
		for (let i = 1; i <= n; i++) apps[0].history.push(`/${i}`)
		c.eq(apps.map(a => a.history.location.pathname), [n ? `/${n}` : '/', '/'], 'locations')
		c.eq(moved, 0, 'changes of the history of the page')
		c.state(n, options)
	}
}

/** Two apps of one page, with options of their own: each has its own. */
const two = {
	name: 'two apps of one page, each with its options',
	async: true,
	async run(c) {
		const test = c.bool('test preset')
		const same = c.bool('same name')
		const opts = [0, 1].map(i => ({
			preventDefault: c.pick(`preventDefault ${i}`, [undefined, true, false]),
			fetch: c.bool(`fetch ${i}`),
			history: c.bool(`history ${i}`)
		}))
		const sequential = c.bool('one after the other')
		if (!c.mine()) return
		const run = async preset => {
			const m = c.load()
			const build = (o, i) => {
				const browser = {}
				if (o.preventDefault !== undefined) browser.preventDefault = o.preventDefault
				if (o.fetch) browser.fetch = async () => ({ from: `option ${i}` })
				const history = o.history ? { history: m.historyT.createMemoryHistory({ initialEntries: [`/own${i}`] }) } : undefined
				const b = m.appT.justTestApp({ name: same || !i ? 'x' : 'y' }).with(m.commands.commandsGizmoFn())
				if (preset) return b.with((test ? m.presetsT.presetsBrowserTestGizmoFn : m.presets.presetsBrowserGizmoFn)({ browser, history })).create()
				return b
					.with((test ? m.browserT.browserTestGizmoFn : m.browser.browserGizmoFn)(browser))
					.with(m.bprefs.browserPreferencesGizmo)
					.with(m.history.historyGizmoFn(history ?? (test ? { history: m.historyT.createMemoryHistory() } : undefined)))
					.create()
			}
			const apps = []
			if (sequential) for (const [i, o] of opts.entries()) apps.push(await build(o, i))
			else apps.push(...(await Promise.all(opts.map(build))))
			const seen = []
			const ev = { type: 'error', message: 'm', filename: 'f', lineno: 1, colno: 2, error: new Error('e'), prevented: 0, preventDefault: () => void ev.prevented++ }
			m.page.win.dispatch('error', ev)
			seen.push(['prevented', ev.prevented])
			for (const a of apps) {
				seen.push((await a.fetch('/u')).from, a.history.location.pathname, a.browser.errors.get().length)
				a.preferences.set('k', `v${seen.length}`)
			}
			for (const a of apps) seen.push(a.preferences.get('k'))
			apps[0].history.push('/moved')
			for (const a of apps) seen.push(a.history.location.pathname)
			seen.push(apps[0].browser === apps[1].browser, apps[0].browser.errors === apps[1].browser.errors, apps[0].preferences === apps[1].preferences)
			return seen
		}
		c.step(`${same ? 'same name' : 'two names'}, ${show(opts)}`)
		const [a, b] = [await run(true), await run(false)]
		c.eq(a, b, 'what is seen of two apps with the preset, compared with its parts')
		const prevented = opts.filter(o => o.preventDefault).length
		c.ok(a[0][1] === prevented, `events of the page prevented: ${a[0][1]}, expected ${prevented}`)
		c.state(test, same, opts, a)
		c.outcome(a)
	}
}

const deepFreeze = o => {
	if (o && typeof o === 'object') for (const v of Object.values(Object.freeze(o))) if (Object.getPrototypeOf(v ?? 0) === Object.prototype) deepFreeze(v)
	return o
}

/** The options, and the gizmos made of them, are used for several apps. */
const reused = {
	name: 'the same options for several apps',
	async: true,
	async run(c) {
		const test = c.bool('test preset')
		const what = c.pick('reused', ['options', 'gizmo', 'both frozen', 'options edited after the first app'])
		const o = {
			preventDefault: c.pick('preventDefault', [undefined, true, false]),
			fetch: c.bool('fetch'),
			history: c.bool('history')
		}
		const apps = c.pick('apps', [2, 3])
		const sequential = c.bool('one after the other')
		if (!c.mine()) return
		if (what.startsWith('options edited') && !sequential) return
		const m = c.load()
		const options = { browser: {} }
		if (o.preventDefault !== undefined) options.browser.preventDefault = o.preventDefault
		if (o.fetch) options.browser.fetch = async () => ({ from: 'option' })
		if (o.history) options.history = { history: m.historyT.createMemoryHistory({ initialEntries: ['/own'] }) }
		if (what === 'both frozen') deepFreeze(options)
		const before = Object.entries(options).map(([k, v]) => [k, Object.entries(v)])
		const fn = test ? m.presetsT.presetsBrowserTestGizmoFn : m.presets.presetsBrowserGizmoFn
		const gizmo = what === 'gizmo' || what === 'both frozen' ? fn(options) : undefined
		const build = () => m.appT.justTestApp({ name: 'x' }).with(m.commands.commandsGizmoFn()).with(gizmo ?? fn(options)).create()
		c.step(`${what}, ${show(o)}`)
		const list = []
		if (sequential)
			for (let i = 0; i < apps; i++) {
				list.push(await build())
				c.eq(
					Object.entries(options).map(([k, v]) => [k, Object.entries(v)]),
					before,
					'the options after an app was made of them'
				)
				if (what.startsWith('options edited')) {
					// from now on: what the apps made before have got does not change
					options.browser.fetch = async () => ({ from: 'edited' })
					options.history = { history: m.historyT.createMemoryHistory({ initialEntries: ['/edited'] }) }
					break
				}
			}
		else list.push(...(await Promise.all(Array.from({ length: apps }, build))))
		for (const [i, a] of list.entries()) {
			const r = await a.fetch('/u')
			c.ok(o.fetch ? r.from === 'option' : r.from === undefined, `fetch of app ${i}: ${show(r)}`)
			if (o.history) c.ok(a.history.location.pathname === '/own', `history of app ${i} is at ${a.history.location.pathname}`)
			else c.ok(a.history.location.pathname === '/', `history of app ${i} is at ${a.history.location.pathname}`)
		}
		if (o.history && !what.startsWith('options edited')) {
			list[0].history.push('/moved')
			for (const [i, a] of list.entries()) c.eq(a.history.location.pathname, '/moved', `the history given, of app ${i}`)
		}
		const ev = { type: 'error', message: 'm', filename: 'f', lineno: 1, colno: 2, error: new Error('e'), prevented: 0, preventDefault: () => void ev.prevented++ }
		m.page.win.dispatch('error', ev)
		c.eq(ev.prevented, o.preventDefault ? list.length : 0, 'events of the page prevented')
		for (const [i, a] of list.entries()) c.eq(a.browser.errors.get().length, 1, `errors of app ${i}`)
		c.state(test, what, o, apps)
		c.outcome([what, o, ev.prevented])
	}
}

export default {
	property: 'C29',
	entries,
	scenarios: [configurations, histories, apart, two, reused],
	assumptions: ['the preset and its parts run on identical pages of their own', 'log entries below the level notice are not compared']
}
