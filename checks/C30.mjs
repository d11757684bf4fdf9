// C30: what the services of an app report goes to the log of that app, and how much is logged changes nothing else.
import { entries as all, KINDS, makeApp, observe, OPS } from './C19.mjs'
import { show } from '../lib/values.mjs'

const entries = { ...all, states: [...all.states, 'createStore', 'createState', 'createRegistry'], log: ['@just-web/log', 'getLogger'] }
const LEVELS = ['none', 'emergency', 'error', 'warn', 'notice', 'info', 'debug', 'trace', 'planck', 'all']
const NAMES = Object.keys(OPS)

/** What a history gives at some verbosity: every result and observation, and what was logged. */
async function history(c, kind, level, ops) {
	const m = c.load({ language: 'xx' })
	const x = await makeApp(m, 'A', kind, level)
	x.id = x.app.id
	x.shared = m.commands.command({ id: 'shared', key: 'ctrl+s' })
	const seen = []
	const look = r => {
		const { log, ...rest } = observe(x)
		seen.push(show([r, rest]))
	}
	look()
	for (const op of ops) {
		x.n++
		if (op === 'command palette') x.palette = true
		let r
		try {
			r = await OPS[op](x)
		} catch (e) {
			r = `throws ${e}`
		}
		look(r)
	}
	return { seen, entries: x.reporter.logs.map(e => ({ id: e.id, level: e.level, args: show(e.args.map(a => (typeof a === 'string' ? a.replaceAll(x.app.id, '<id>') : typeof a === 'function' ? 'fn' : a))) })), console: m.page.console }
}
const cache = new Map()
async function everything(c, kind, ops) {
	const key = JSON.stringify([kind, ops])
	if (!cache.has(key)) {
		if (cache.size > 20000) cache.clear()
		cache.set(key, await history(c, kind, 'all', ops))
	}
	return cache.get(key)
}

const verbosity = {
	name: 'every history at every verbosity',
	async: true,
	depth: { quick: 2, thorough: 3 },
	async run(c) {
		const kind = c.pick('kind', c.tier === 'thorough' ? [KINDS[0][0], KINDS[1][0], KINDS[2][0]] : [KINDS[0][0], KINDS[2][0]])
		const ops = []
		for (let i = 0; i < c.depth; i++) ops.push(c.pick('op', c.depth === 3 ? NAMES.filter((_, k) => i < 2 || k % 2 === 0) : NAMES))
		const level = c.pick('level', LEVELS)
		c.step(`${ops.join(', ')} at ${level}`)
		const full = await everything(c, kind, ops)
		const x = await history(c, kind, level, ops)
		c.eq(x.seen, full.seen, `results and observations with the verbosity ${level}`)
		const value = c.load().app.logLevels[level]
		c.eq(x.entries, full.entries.filter(e => e.level <= value), `entries logged with the verbosity ${level}`)
		for (const e of x.entries) c.ok(e.id === 'A' || e.id.startsWith('A:'), () => `id of the entry ${show(e)}`)
		c.eq(x.console.length, 0, 'lines printed on the console')
		c.state(kind, ops, level)
		c.outcome(x.entries.map(e => e.id))
	}
}

// The containers of an app report to its log, or to the logger given.
const MAKE = {
	state: (s, init, meta) => {
		const [, set, onChange, reset] = s.createState(init, meta)
		return { set, onChange, reset }
	},
	store: (s, init, meta) => s.createStore(init, meta),
	registry: (s, init, meta) => s.createRegistry({ v: init }, meta)
}
const containers = {
	name: 'containers of an app',
	async: true,
	depth: { quick: 3, thorough: 4 },
	async run(c) {
		const kind = c.pick('kind', Object.keys(MAKE))
		const given = c.pick('meta', ['none', 'empty', 'undefined logger', 'logger of the app', 'logger of another app', 'logger of the page'])
		const level = c.pick('level', ['planck', 'trace', 'error'])
		const real = c.bool('justApp')
		const m = c.load()
		const mk = async (name, test) => {
			const reporter = m.app.createMemoryLogReporter({ id: 'mem' })
			const log = { reporters: [reporter], logLevel: m.app.logLevels[level] }
			const app = await (test ? m.appT.justTestApp({ name, log }) : m.app.justApp({ name, log })).with(m.states.statesGizmo).create()
			reporter.logs.length = 0
			return { app, reporter }
		}
		const x = await mk('x', !real)
		const y = await mk('y', true)
		const ids = []
		const pageLogger = { planck: (...a) => void ids.push(['page', ...a]), on: (l, f) => void f((...a) => void ids.push(['page', ...a])) }
		const meta =
			given === 'none' ? undefined
			: given === 'empty' ? {}
			: given === 'undefined logger' ? { logger: undefined }
			: given === 'logger of the app' ? { logger: x.app.log.getLogger('mine') }
			: given === 'logger of another app' ? { logger: y.app.log.getLogger('theirs') }
			: { logger: pageLogger }
		const init = kind === 'registry' ? 0 : { v: 0 }
		const s = MAKE[kind](x.app.states, init, meta)
		const own = given === 'logger of another app' ? y : x
		const other = own === x ? y : x
		const id = given === 'logger of the app' ? 'x:mine' : given === 'logger of another app' ? 'y:theirs' : 'x'
		let subs = 0
		let v = 0
		let before = 0
		for (let i = 0; i < c.depth; i++) {
			const op = c.pick('op', ['set', 'same', 'subscribe', 'reset', 'async'])
			own.reporter.logs.length = 0
			ids.length = 0
			let changes = 0
			let traces = 0
			c.step(op)
			if (op === 'set') {
				v++
				changes = 1
				s.set(d => void (d.v = v))
			} else if (op === 'async') {
				v++
				changes = 1
				await s.set(async d => void (d.v = v))
			} else if (op === 'same') s.set(d => void (d.v = v))
			else if (op === 'subscribe') {
				traces = 1
				subs++
				s.onChange(() => {})
			} else {
				changes = v === 0 ? 0 : 1
				v = 0
				s.reset()
			}
			if (given === 'logger of the page') {
				c.eq(ids.length >= changes + traces, true, 'entries given to the logger supplied')
				c.eq(changes + traces ? true : ids.length === 0, true, 'entries without anything to report')
				c.eq([x.reporter.logs.length, y.reporter.logs.length], [0, 0], 'entries logged by the apps')
			} else {
				const logs = own.reporter.logs
				c.ok(logs.every(e => e.id === id), () => `ids of the entries ${show(logs.map(e => e.id))}, expected ${id}`)
				const planck = m.app.logLevels.planck
				const trace = m.app.logLevels.trace
				c.eq(logs.filter(e => e.level === planck).length > 0, changes > 0 && level === 'planck', `a change is logged at planck (${op})`)
				c.eq(logs.filter(e => e.level === trace).length > 0, traces > 0 && level !== 'error', `a subscription is logged at trace (${op})`)
				c.eq(other.reporter.logs.length, 0, 'entries logged by the other app')
			}
			c.eq(m.page.console.length, 0, 'lines printed on the console')
			before = v
			c.state(kind, given, level, v, subs)
		}
		c.outcome([kind, given, level, before])
	}
}

export default {
	property: 'C30',
	entries,
	scenarios: [verbosity, containers],
	assumptions: [
		'texts of entries are compared between verbosities, not with fixed texts',
		'containers which plugins make for themselves report to the logger of the page, silent by default'
	]
}
