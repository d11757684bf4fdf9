// C19: apps living on the same page do not interfere with one another.
import { show } from '../lib/values.mjs'
import { deferred } from './C17.mjs'

export const entries = {
	app: ['@just-web/app', 'justApp', 'define', 'createMemoryLogReporter', 'logLevels'],
	appT: ['@just-web/app/testing', 'justTestApp'],
	states: ['@just-web/states', 'nothing', 'statesGizmo', 'push'],
	commands: ['@just-web/commands', 'command', 'commandsGizmoFn', 'showCommandPalette'],
	keyboard: ['@just-web/keyboard', 'keyboardGizmoFn'],
	prefs: ['@just-web/preferences', 'memoryPreferencesGizmo', 'preferencesGizmo', 'getUserPreference', 'setUserPreference', 'clearAllUserPreferences'],
	browser: ['@just-web/browser', 'browserGizmoFn'],
	browserT: ['@just-web/browser/testing', 'browserTestGizmoFn', 'stubStorage'],
	bprefs: ['@just-web/browser-preferences', 'browserPreferencesGizmo'],
	i18n: ['@just-web/i18n', 'i18nGizmoFn', 'setLanguageCommand'],
	bi18n: ['@just-web/browser-i18n', 'browserI18nGizmo'],
	routes: ['@just-web/routes', 'routesGizmo'],
	events: ['@just-web/events', 'eventsGizmoFn']
}

/** An app of every service, and what can be observed of it. */
const optionsOf = () => ({
	keyboard: { keyBindingContributions: [{ id: 'o', key: 'o' }] },
	commands: { contributions: [{ id: 'o', title: 'O' }], handlers: { o: () => 'o' } },
	browser: {},
	i18n: { language: 'en' },
	events: {}
})
const gizmosOf = (m, o = optionsOf()) => ({
	keyboard: m.keyboard.keyboardGizmoFn(o.keyboard),
	commands: m.commands.commandsGizmoFn(o.commands),
	browser: m.browser.browserGizmoFn(o.browser),
	i18n: m.i18n.i18nGizmoFn(o.i18n),
	events: m.events.eventsGizmoFn(o.events)
})
export async function makeApp(m, name, kind, level, g = gizmosOf(m)) {
	const reporter = m.app.createMemoryLogReporter({ id: 'mem' })
	const log = { reporters: [reporter], logLevel: m.app.logLevels[level] }
	const base = kind.real ? m.app.justApp({ name, log }) : m.appT.justTestApp({ name, log })
	const b = base
		.with(m.states.statesGizmo)
		.with(g.keyboard)
		.with(g.commands)
		.with(g.browser)
		.with(kind.prefs === 'memory' ? m.prefs.memoryPreferencesGizmo : m.bprefs.browserPreferencesGizmo)
		.with(kind.i18n === 'memory' ? g.i18n : m.bi18n.browserI18nGizmo)
		.with(m.routes.routesGizmo)
		.with(g.events)
	const app = await b.create()
	const heard = []
	app.i18n.languageChanged((a, b) => heard.push(['language', a, b]))
	app.commands.contributions.onChange((v, p) => heard.push(['contributions', Object.keys(v), Object.keys(p)]))
	app.keyboard.keyBindingContributions.onChange(v => heard.push(['keys', Object.keys(v)]))
	app.browser.errors.onChange(v => heard.push(['errors', v.length]))
	app.events.emitter.on('e', (...args) => heard.push(['e', ...args]))
	return { app, name, reporter, heard, n: 0, m, late: [], disposers: [] }
}

export function observe(x) {
	const before = x.reporter.logs.length
	const seen = look(x)
	x.reporter.logs.length = before // what looking itself logs
	return seen
}
function look(x) {
	const { app } = x
	const att = f => {
		try {
			return f()
		} catch (e) {
			return `throws ${e}`
		}
	}
	return {
		contributions: { ...app.commands.contributions.get() },
		handlers: app.commands.handlers.keys().map(String).sort(),
		keys: { ...app.keyboard.keyBindingContributions.get() },
		k: att(() => app.preferences.get('k')),
		d: att(() => app.preferences.get('d', 'default')),
		s: att(() => app.preferences.createStore('s', { l: [] }).get()),
		language: att(() => app.i18n.getLanguage()),
		routes: ['/', '/r', '/i'].map(r => app.routes.hasRoute(r)),
		errors: app.browser.errors.get().length,
		heard: x.heard,
		name: app.name,
		idOk: app.id === x.id,
		log: x.reporter.logs.map(e => [e.id, e.level, e.args.map(a => (typeof a === 'string' ? a : typeof a === 'function' ? 'fn' : show(a))).join(' ').replaceAll(app.id, '<id>')])
	}
}

/** The operations of an app on its own interfaces: what they give is observed too. */
export const OPS = {
	'register and invoke': x => {
		const tag = `${x.name}${x.n}`
		x.app.commands.handlers.register('cmd', a => `${tag}:${a}`)
		return x.app.commands.handlers.invoke('cmd', 1)
	},
	invoke: x => x.app.commands.handlers.invoke('cmd', 2),
	'connect shared': x => {
		const tag = `${x.name}${x.n}`
		x.shared.connect(x.app, a => `${tag}:${a}`)
		return x.app.commands.handlers.invoke('shared', 1)
	},
	'invoke shared': x => x.app.commands.handlers.invoke('shared', 2),
	contribute: x => (x.app.commands.contributions.add({ id: 'c', title: `${x.name}${x.n}` }, { id: `c${x.name}` }), undefined),
	'bind keys': x => (x.app.keyboard.keyBindingContributions.add({ id: 'c', key: `${x.name}${x.n}` }), undefined),
	'reset contributions': x => (x.app.commands.contributions.set({}), x.app.keyboard.keyBindingContributions.set({}), undefined),
	'set preference': x => (x.app.preferences.set('k', v => `${v ?? ''}${x.name}${x.n}`), x.app.preferences.get('k')),
	'remove preference': x => (x.app.preferences.set('k', x.m.states.nothing), x.app.preferences.get('k', 'none')),
	'clear preferences': x => (x.app.preferences.clearAll(), x.app.preferences.get('k')),
	'preference store': x => {
		x.app.preferences.createStore('s', { l: [] }).set(d => void d.l.push(`${x.name}${x.n}`))
		return x.app.preferences.createStore('s').get()
	},
	'preference by handler': x => (x.app.commands.handlers.invoke('just-web.setUserPreference', 'd', `${x.name}${x.n}`), x.app.commands.handlers.invoke('just-web.getUserPreference', 'd')),
	'async preference': x => {
		const d = deferred()
		x.late.push(d)
		x.app.preferences.set('k', async v => (await d.promise, `${v ?? ''}${x.name}late`))
		return x.app.preferences.get('k')
	},
	'settle preferences': async x => {
		for (const d of x.late.splice(0)) d.resolve()
		await new Promise(r => setImmediate(r))
		return x.app.preferences.get('k')
	},
	'set language': x => (x.app.i18n.setLanguage(`${x.name}${x.n}`), x.app.i18n.getLanguage()),
	'language by handler': x => (x.app.commands.handlers.invoke('@just-web/i18n/set-language', `${x.name}${x.n}h`), x.app.i18n.getLanguage()),
	'clear language': x => (x.app.i18n.clearLanguage?.(), x.app.i18n.getLanguage()),
	'register route': x => {
		const tag = `${x.name}${x.n}`
		x.disposers.push(x.app.routes.register('/', () => x.heard.push(['route', tag])))
		return x.app.routes.hasRoute('/')
	},
	'configure and navigate': x => {
		x.app.routes.register('/i', () => x.heard.push(['initial']))
		x.app.routes.config({ initialRoute: '/i' })
		return x.app.routes.navigate()
	},
	navigate: x => x.app.routes.navigate(),
	'unregister route': x => (x.disposers.forEach(d => d()), x.app.routes.hasRoute('/')),
	'clear routes': x => x.app.routes.clearRoutes(),
	emit: x => x.app.events.emitter.emit('e', `${x.name}${x.n}`),
	'failing listener': x => {
		const tag = `${x.name}${x.n}`
		x.app.events.emitter.on('f', () => {
			throw new Error(tag)
		})
		return x.app.events.emitter.emit('f')
	},
	log: x => {
		x.app.log.error(`${x.name}${x.n}`)
		x.app.log.getLogger('sub').warn('sub')
		x.app.log.count('counted')
	},
	'command palette': x => {
		const tag = `${x.name}${x.n}`
		x.m.commands.showCommandPalette.connect(x.app, () => void x.heard.push(['palette', tag]))
		return x.app.commands.showCommandPalette()
	},
	'show palette': x => (x.palette ? x.app.commands.showCommandPalette() : undefined),
	states: x => {
		const s = x.app.states.createStore({ v: 0 })
		s.onChange(v => x.heard.push(['store', v]))
		s.set({ v: x.n })
		const r = x.app.states.createRegistry()
		r.set(d => void (d[x.name] = x.n))
		return [s.get(), { ...r.get() }]
	}
}
export const KINDS = [
	[{ prefs: 'memory', i18n: 'memory' }, { prefs: 'memory', i18n: 'memory' }],
	[{ prefs: 'browser', i18n: 'browser' }, { prefs: 'browser', i18n: 'browser' }],
	[{ prefs: 'browser', i18n: 'browser', real: true }, { prefs: 'memory', i18n: 'memory' }],
	[{ prefs: 'memory', i18n: 'browser' }, { prefs: 'browser', i18n: 'memory', real: true }]
]

async function act(x, op) {
	x.n++
	if (op === 'command palette') x.palette = true
	let r
	try {
		r = await OPS[op](x)
	} catch (e) {
		r = `throws ${e}`
	}
	return show([r, observe(x)])
}

const aloneCache = new Map()
/** The observations of an app alone on its page, after each of its operations. */
async function alone(c, name, kind, level, ops) {
	const key = JSON.stringify([name, kind, level, ops])
	if (aloneCache.has(key)) return aloneCache.get(key)
	const m = c.load({ language: 'xx' })
	const x = await makeApp(m, name, kind, level)
	x.id = x.app.id
	x.shared = m.commands.command({ id: 'shared', key: 'ctrl+s' })
	const out = [show(observe(x))]
	for (const op of ops) out.push(await act(x, op))
	if (aloneCache.size > 20000) aloneCache.clear()
	aloneCache.set(key, out)
	return out
}

/** @param ops the operations of each app; order: who is acting */
function interference(name, cfg) {
	return {
		name,
		async: true,
		async run(c) {
			const kinds = c.pick('kinds', cfg.kinds(c))
			const level = cfg.level ?? 'debug'
			// who acts: a pattern of apps, and when each is created
			const pattern = c.pick('pattern', cfg.patterns(c))
			const names = cfg.names ? c.pick('names', cfg.names) : ['A', 'B']
			const m = c.load({ language: 'xx' })
			const shared = m.commands.command({ id: 'shared', key: 'ctrl+s' })
			const sharing = cfg.sharing && c.pick('shared', ['gizmos', 'options'])
			const options = optionsOf()
			const gizmos = sharing === 'gizmos' ? gizmosOf(m) : undefined
			const xs = [undefined, undefined]
			const ops = [[], []]
			const got = [[], []]
			async function create(i) {
				if (xs[i]) return
				c.step(`create ${names[i]}`)
				xs[i] = await makeApp(m, names[i], kinds[i], level, gizmos ?? (sharing ? gizmosOf(m, options) : undefined))
				xs[i].id = xs[i].app.id
				xs[i].shared = shared
				got[i].push(show(observe(xs[i])))
			}
			const bystander = async i => {
				// the app which does nothing observes nothing
				if (xs[i] && got[i].length) {
					const now = show(observe(xs[i]))
					const last = got[i].at(-1)
					const of = ops[i].length ? last.slice(last.length - now.length - 1, -1) : last
					if (now !== of) return c.fail(`${names[i]} observes what the other app did:\n  before: ${of}\n  after:  ${now}`)
				}
			}
			for (const ch of pattern) {
				const i = ch.toLowerCase() === 'a' ? 0 : 1
				if (ch === ch.toLowerCase()) {
					await create(i)
				} else {
					await create(i)
					const op = c.pick('op', cfg.ops)
					c.step(`${names[i]}: ${op}`)
					ops[i].push(op)
					got[i].push(await act(xs[i], op))
				}
				await bystander(1 - i)
			}
			for (const i of [0, 1]) {
				if (!xs[i]) continue
				const exp = await alone(c, names[i], kinds[i], level, ops[i])
				exp.forEach((e, j) => {
					if (got[i][j] !== e) c.fail(`${names[i]} after ${show(ops[i].slice(0, j))} observes, with the other app:\n  ${got[i][j]}\nand alone:\n  ${e}`)
				})
			}
			c.state(kinds, names, got.map(g => g.at(-1)))
			c.outcome(got.map(g => g.length))
		}
	}
}

const all = Object.keys(OPS)
// Many apps on a page.
const crowd = {
	name: 'many apps',
	async: true,
	async run(c) {
		const kind = c.pick('kind', [{ prefs: 'memory', i18n: 'memory' }, { prefs: 'browser', i18n: 'browser' }, { prefs: 'browser', i18n: 'browser', real: true }])
		const n = c.pick('apps', c.tier === 'thorough' ? [9, 17, 40] : [12])
		const order = c.pick('order', ['one app after the other', 'in turn', 'all created first', 'in turn, backwards'])
		const from = c.pick('first operation', all.filter((_, i) => i % 4 === 0))
		if (!c.mine()) return
		const m = c.load({ language: 'xx' })
		const shared = m.commands.command({ id: 'shared', key: 'ctrl+s' })
		// every app begins with another operation
		const start = all.indexOf(from)
		const opsOf = i => Array.from({ length: 3 }, (_, k) => all[(start + i + k * 5) % all.length])
		const names = Array.from({ length: n }, (_, i) => `A${i}`)
		const xs = []
		const got = names.map(() => [])
		const create = async i => {
			if (xs[i]) return
			xs[i] = await makeApp(m, names[i], kind, 'debug')
			xs[i].id = xs[i].app.id
			xs[i].shared = shared
			got[i].push(show(observe(xs[i])))
		}
		c.step(`${n} apps, ${order}, from ${from}`)
		if (order === 'all created first') for (const i of names.keys()) await create(i)
		const turns = order === 'one app after the other' ? names.flatMap((_, i) => [0, 1, 2].map(k => [i, k])) : [0, 1, 2].flatMap(k => names.map((_, i) => [order.endsWith('backwards') ? n - 1 - i : i, k]))
		for (const [i, k] of turns) {
			await create(i)
			got[i].push(await act(xs[i], opsOf(i)[k]))
		}
		c.is(new Set(xs.map(x => x.id)).size, n, 'different ids')
		for (const i of names.keys()) {
			const exp = await alone(c, names[i], kind, 'debug', opsOf(i))
			exp.forEach((e, j) => {
				if (got[i][j] !== e) c.fail(`${names[i]} of ${n} after ${show(opsOf(i).slice(0, j))} observes, with the other apps:\n  ${got[i][j]}\nand alone:\n  ${e}`)
			})
			const now = show(observe(xs[i]))
			const last = got[i].at(-1)
			c.is(last.slice(last.length - now.length - 1, -1), now, `what ${names[i]} observes at the end`)
		}
		c.state(kind, n, order, from)
		c.outcome([n, got.map(g => g.length).length])
	}
}

const few = ['register and invoke', 'connect shared', 'contribute', 'set preference', 'async preference', 'settle preferences', 'clear preferences', 'language by handler', 'register route', 'failing listener', 'command palette', 'show palette']
// Preferences which each app implements itself, at any time: those of an app go to its own implementation.
const WAYS = ['handlers of the options', 'gizmo before', 'gizmo after', 'registered once created', 'connected once created']
const ownPreferences = {
	name: 'preferences which each app implements itself',
	async: true,
	async run(c) {
		const ways = [c.pick('a implements', WAYS), c.pick('b implements', WAYS)]
		const order = c.pick('order', [[0, 1], [1, 0]])
		const m = c.load()
		const P = m.prefs
		const calls = []
		const data = [new Map(), new Map()]
		const apps = []
		for (const i of order) {
			const impl = {
				[P.getUserPreference.id]: (k, d) => (calls.push([i, 'get', k]), data[i].has(k) ? data[i].get(k) : d),
				[P.setUserPreference.id]: (k, v) => {
					calls.push([i, 'set', k])
					const x = typeof v === 'function' ? v(data[i].get(k)) : v
					if (x === undefined || x === m.states.nothing) data[i].delete(k)
					else data[i].set(k, x)
				},
				[P.clearAllUserPreferences.id]: () => (calls.push([i, 'clear']), data[i].clear())
			}
			const connect = app => [P.getUserPreference, P.setUserPreference, P.clearAllUserPreferences].forEach(cmd => void cmd.connect(app, impl[cmd.id]))
			const gizmo = m.app.define({ static: m.app.define.require(), create: async app => void connect(app) })
			const way = ways[i]
			let b = m.appT.justTestApp({ name: 'ab'[i] }).with(m.commands.commandsGizmoFn(way === WAYS[0] ? { handlers: impl } : {}))
			if (way === 'gizmo before') b = b.with(gizmo)
			b = b.with(P.preferencesGizmo)
			if (way === 'gizmo after') b = b.with(gizmo)
			const app = (apps[i] = await b.create())
			if (way === 'registered once created') for (const id of Object.keys(impl)) app.commands.handlers.register(id, impl[id])
			if (way === 'connected once created') connect(app)
		}
		c.step(`a: ${ways[0]}, b: ${ways[1]}, created ${order}`)
		const expect = (what, exp) => c.eq(calls.splice(0), exp, `implementations called by ${what}`)
		for (const i of [0, 1, 0]) {
			const p = apps[i].preferences
			p.set('k', `v${i}`)
			expect(`set() of ${'ab'[i]}`, [[i, 'set', 'k']])
			c.is(p.get('k'), `v${i}`, 'preference')
			c.is(p.get('none', 'default'), 'default', 'preference which is not set')
			expect(`get() of ${'ab'[i]}`, [[i, 'get', 'k'], [i, 'get', 'none']])
			const s = p.createStore('s', [])
			s.set(l => [...l, i])
			c.ok(s.get().length > 0 && s.get().every(x => x === i), 'typed preference')
			c.ok(calls.length > 0 && calls.every(x => x[0] === i), 'the implementation of the app is used by the typed store')
			calls.length = 0
		}
		apps[1].preferences.clearAll()
		expect('clearAll() of b', [[1, 'clear']])
		c.eq([apps[0].preferences.get('k'), apps[1].preferences.get('k')], ['v0', undefined], 'preferences after b has cleared its own')
		c.state(ways, order)
		c.outcome(ways)
	}
}

export default {
	property: 'C19',
	entries,
	scenarios: [
		crowd,
		// a, b: creation (when it precedes the first operation); A, B: an operation
		interference('one operation each, then one more', {
			kinds: c => (c.tier === 'thorough' ? KINDS : KINDS.slice(0, 3)),
			patterns: c => (c.tier === 'thorough' ? ['abAB', 'baAB', 'AbB', 'AB', 'BaA', 'abBA'] : ['abAB', 'baAB', 'AB']),
			ops: all
		}),
		interference('longer histories', {
			kinds: c => (c.tier === 'thorough' ? KINDS.slice(0, 3) : KINDS.slice(0, 2)),
			patterns: c => (c.tier === 'thorough' ? ['abABA', 'AbBA', 'baABAB'] : ['abABA', 'AbBA']),
			ops: few
		}),
		interference('gizmos or options used by both apps', {
			sharing: true,
			kinds: c => (c.tier === 'thorough' ? KINDS : KINDS.slice(0, 1)),
			patterns: c => (c.tier === 'thorough' ? ['abAB', 'baAB', 'AB', 'ABA'] : ['abAB', 'AB']),
			ops: all
		}),
		interference('everything logged', {
			level: 'all',
			kinds: c => [[{ ...KINDS[1][0], real: true }, { ...KINDS[0][0], real: true }], KINDS[3]],
			patterns: c => (c.tier === 'thorough' ? ['abAB', 'baAB', 'AB', 'ABA'] : ['abAB', 'BA']),
			ops: all
		}),
		interference('names which resemble one another', {
			kinds: () => KINDS.slice(1, 2),
			patterns: () => ['abAB', 'ABA'],
			names: [
				['n', 'nn'],
				['n', 'n/x'],
				['', 'x'],
				['my app', 'my'],
				['constructor', 'toString']
			],
			ops: ['set preference', 'remove preference', 'clear preferences', 'preference store', 'set language', 'clear language', 'log']
		}),
		ownPreferences
	],
	assumptions: [
		'a shared command object itself (not the handlers of an app) follows the app connected last, as documented',
		'error events of the page are observed by every app; a page has one keyboard (C21)',
		'the page has one log for what belongs to no app (commands not connected): it is the one created first, as documented by standard-log'
	]
}
