// C25: every uncaught browser error is captured once, in order, until cleanup.
import { sparse } from '../lib/explore.mjs'
import { show } from '../lib/values.mjs'

const entries = {
	app: ['@just-web/app', 'justApp', 'define', 'createMemoryLogReporter', 'incubate', 'logLevels'],
	appT: ['@just-web/app/testing', 'justTestApp'],
	commands: ['@just-web/commands', 'command', 'commandsGizmoFn'],
	browser: ['@just-web/browser', 'browserGizmoFn', 'BrowserError'],
	browserT: ['@just-web/browser/testing', 'browserTestGizmoFn', 'stubStorage', 'throwBrowserError'],
	presets: ['@just-web/presets-browser', 'presetsBrowserGizmoFn'],
	presetsT: ['@just-web/presets-browser/testing', 'presetsBrowserTestGizmoFn']
}
const ERROR = 400
const KINDS = ['justApp', 'justTestApp', 'test gizmo', 'preset', 'test preset']
const thrown = m => ({
	error: new Error('boom'),
	TypeError: new TypeError('bad type'),
	text: 'text',
	'empty text': '',
	number: 7,
	zero: 0,
	null: null,
	undefined: undefined,
	false: false,
	object: { a: 1 },
	'a BrowserError': new m.browser.BrowserError('inner', 'f', 1, 2),
	'error with cause': new Error('outer', { cause: new Error('cause') }),
	symbol: Symbol('s'),
	'frozen error': Object.freeze(new Error('frozen')),
	'frozen object': Object.freeze({ name: 'x' }),
	'object without prototype': Object.assign(Object.create(null), { a: 1 })
})
const THROWN = Object.keys(thrown({ browser: { BrowserError: Error } }))
const MESSAGES = ['Uncaught Error: boom', '', 'Script error.', 'é\n"quoted" {0} %s', ' spaced \n', `long ${'é '.repeat(5000)}end`]
const PLACES = [
	['http://x/a.js', 12, 3],
	['', 0, 0],
	['http://x/b.js?q#h', 1, 0],
	[`http://x/${'long/'.repeat(1000)}end.js`, 123456789, 987654321]
]

function event(message, [filename, lineno, colno], error, more) {
	const ev = { type: 'error', message, filename, lineno, colno, error, prevented: 0, preventDefault: () => void ev.prevented++, ...more }
	return ev
}
const fields = e => ({ source: e.source, lineno: e.lineno, colno: e.colno })

async function make(m, kind, preventDefault, name = 'x', before, during) {
	const reporter = m.app.createMemoryLogReporter({ id: `mem-${name}` })
	const options = preventDefault === 'no options' ? undefined : { preventDefault }
	const opts = { name, log: { reporters: [reporter] } }
	let b = kind === 'justApp' ? m.app.justApp(opts) : m.appT.justTestApp(opts)
	if (kind.includes('preset')) b = b.with(m.commands.commandsGizmoFn())
	if (before) b = b.with({ create: async () => (before(), {}) })
	switch (kind) {
		case 'justApp':
		case 'justTestApp':
			b = b.with(m.browser.browserGizmoFn(options))
			break
		case 'test gizmo':
			b = b.with(m.browserT.browserTestGizmoFn(options))
			break
		case 'preset':
			b = b.with(m.presets.presetsBrowserGizmoFn(options && { browser: options }))
			break
		case 'test preset':
			b = b.with(m.presetsT.presetsBrowserTestGizmoFn(options && { browser: options }))
	}
	if (during) b = b.with({ create: async ctx => (during(ctx), {}) })
	const app = await b.create()
	return { app, reporter, preventDefault: preventDefault === true, expected: [], calls: [], live: true }
}
const errorLogs = x => x.reporter.logs.filter(e => e.level <= ERROR)

/** Compares everything an app has captured with the events it should have. */
function compare(c, m, x, what) {
	const got = x.app.browser.errors.get()
	c.eq(got.length, x.expected.length, `number of errors captured ${what}`)
	x.expected.forEach((ev, i) => {
		const e = got[i]
		c.ok(e instanceof Error, () => `error ${i} ${what} is ${show(e)}`)
		c.is(e.message.includes(ev.message), true, `message of error ${i} ${what} (${show(e.message)} for ${show(ev.message)})`)
		c.eq(fields(e), { source: ev.filename, lineno: ev.lineno, colno: ev.colno }, `place of error ${i} ${what}`)
		c.is(e.cause, ev.error, `original error of error ${i} ${what}`)
		c.is(ev.captured ?? e, e, `identity of error ${i} ${what}`)
	})
	const logs = errorLogs(x)
	c.eq(logs.length, x.expected.length, `number of errors logged ${what}`)
	logs.forEach((l, i) => c.ok(l.level === ERROR && l.args.some(a => a === got[i]), () => `log entry ${i} ${what} does not hold the error: ${show(l)}`))
}

const shapes = {
	name: 'every shape of error',
	async: true,
	async run(c) {
		const kind = c.pick('kind', KINDS)
		const preventDefault = c.pick('preventDefault', [true, false, undefined, 'no options'])
		const what = c.pick('thrown', THROWN)
		const message = c.pick('message', MESSAGES)
		const place = c.pick('place', PLACES)
		const m = c.load()
		const x = await make(m, kind, preventDefault)
		const { errors } = x.app.browser
		c.eq(errors.get(), [], 'errors at first')
		const told = []
		errors.onChange((v, p) => {
			told.push([v, p])
			c.is(errors.get(), v, 'errors read by a subscriber')
		})
		c.step(`${kind}, preventDefault ${preventDefault}: ${what}, ${show(message)}, ${show(place)}`)
		const original = thrown(m)[what]
		const handled = { cancelable: false, defaultPrevented: true, isTrusted: false, eventPhase: 2, timeStamp: 0, target: {} }
		for (const ev of [event(message, place, original), event('second', ['f', 1, 1], undefined), event('third', ['f', 1, 2], undefined, handled)]) {
			m.page.win.dispatch('error', ev)
			x.expected.push(ev)
			ev.captured = errors.get().at(-1)
			compare(c, m, x, 'after an event')
			c.is(ev.prevented > 0, x.preventDefault, 'default action prevented')
			c.eq(told.length, 1, 'calls of the subscriber')
			const [v, p] = told.pop()
			c.eq([v.length, p.length], [x.expected.length, x.expected.length - 1], 'errors told to the subscriber')
			c.is(v.at(-1), ev.captured, 'error told to the subscriber')
		}
		// the list cannot be changed from outside
		const list = errors.get()
		const first = list[0]
		c.attempt(() => list.push(new Error('intruder')))
		c.attempt(() => {
			list.length = 0
		})
		c.attempt(() => {
			list[0] = new Error('intruder')
		})
		c.is(errors.get()[0], first, 'first error after writing to the list')
		compare(c, m, x, 'after writing to the list')
		c.eq(['set', 'reset', 'add'].filter(k => k in errors), [], 'ways to change the errors')
		c.state(kind, preventDefault, what, message, place)
		c.outcome([x.expected.length, show(errors.get()[0].cause)])
	}
}

const histories = {
	name: 'apps created and cleaned up among errors',
	async: true,
	depth: { quick: 5, thorough: 6 },
	async run(c) {
		const kinds = c.pick('kinds', c.tier === 'thorough' ? [['justApp', 'justApp'], ['justTestApp', 'test gizmo'], ['preset', 'justTestApp']] : [['justApp', 'justTestApp'], ['justTestApp', 'test gizmo']])
		const prevents = c.pick('preventDefault', [[true, false], [false, true]])
		const m = c.load()
		const xs = [undefined, undefined]
		const handlers = []
		let n = 0
		const cleanable = i => kinds[i].startsWith('just')
		for (let i = 0; i < c.depth; i++) {
			const menu = [['error']]
			for (const a of [0, 1]) {
				if (!xs[a]) menu.push(['create', a], ['create, error meanwhile', a])
				else {
					if (cleanable(a)) menu.push(['cleanup', a])
					menu.push(['subscribe', a])
				}
			}
			handlers.forEach(h => h.live && menu.push(['unsubscribe', h]))
			const [op, a] = menu[c.choose('op', menu.length)]
			c.step(`${op} ${op === 'unsubscribe' ? a.tag : (a ?? '')}`)
			if (op.startsWith('create')) {
				let ev
				if (op === 'create') xs[a] = await make(m, kinds[a], prevents[a], 'xy'[a])
				else {
					// an error before the gizmo is created is not captured; one after it is
					const early = event('early', ['e', 1, 1], 0)
					ev = event('during', ['d', 1, 1], 0)
					const others = xs.filter(x => x?.live)
					xs[a] = await make(m, kinds[a], prevents[a], 'xy'[a], () => m.page.win.dispatch('error', early), () => m.page.win.dispatch('error', ev))
					others.forEach(x => {
						x.expected.push(early, ev)
						x.handlers?.forEach(h => h.live && h.expected.push(x.expected.length - 1, x.expected.length))
					})
					xs[a].expected.push(ev)
				}
			} else if (op === 'cleanup') {
				m.app.incubate.cleanup(xs[a].app)
				xs[a].live = false
			} else if (op === 'subscribe') {
				const x = xs[a]
				const h = { tag: `h${handlers.length}`, got: [], expected: [], live: true }
				h.off = x.app.browser.errors.onChange(v => h.got.push(v.length))
				;(x.handlers ??= []).push(h)
				handlers.push(h)
			} else if (op === 'unsubscribe') {
				a.off()
				a.live = false
			} else {
				const ev = event(`error ${n++}`, ['f', n, 0], n % 2 ? new Error(`e${n}`) : `e${n}`)
				m.page.win.dispatch('error', ev)
				const living = xs.filter(x => x?.live)
				living.forEach(x => {
					x.expected.push(ev)
					x.handlers?.forEach(h => h.live && h.expected.push(x.expected.length))
				})
				c.is(ev.prevented > 0, living.some(x => x.preventDefault), 'default action prevented')
			}
			if (c.look(i)) xs.forEach((x, j) => x && compare(c, m, x, `in app ${j} after ${op}`))
			for (const h of handlers) c.eq(h.got, h.expected, `calls of ${h.tag}`)
			c.eq(m.page.win.listeners.filter(l => l.type === 'error').length, xs.filter(x => x?.live).length, 'error listeners of the page')
			c.state(kinds, prevents, xs.map(x => x && [x.live, x.expected.length]), handlers.map(h => [h.live, h.got.length]))
		}
		c.outcome(xs.map(x => x && [x.live, x.expected.length]))
	}
}

// Errors raised by a subscriber.
const chains = {
	name: 'errors raised while one is announced',
	async: true,
	async run(c) {
		const kind = c.pick('kind', KINDS)
		const prevent = c.bool('preventDefault')
		const count = 1 + c.choose('errors', 4)
		const raise = c.choose('raised by the subscriber at error', count + 1)
		const m = c.load()
		const x = await make(m, kind, prevent)
		const { errors } = x.app.browser
		const told = []
		let nested
		errors.onChange(v => {
			told.push(v.length)
			if (v.length === raise && !nested) {
				nested = event('nested', ['n', 9, 9], new Error('nested'))
				m.page.win.dispatch('error', nested)
			}
		})
		for (let i = 1; i <= count; i++) {
			const ev = event(`e${i}`, ['f', i, i], i)
			c.step(`error ${i}`)
			m.page.win.dispatch('error', ev)
			x.expected.push(ev)
			if (i === raise && nested) x.expected.push(nested)
		}
		const got = errors.get()
		c.eq(got.map(e => e.cause), x.expected.map(e => e.error), 'original errors, in order')
		c.eq(told, x.expected.map((_, i) => i + 1), 'errors told to the subscriber')
		c.eq(errorLogs(x).length, x.expected.length, 'errors logged')
		for (const e of got) c.eq(errorLogs(x).filter(l => l.args.includes(e)).length, 1, 'log entries of an error')
		for (const ev of x.expected) c.is(ev.prevented > 0, prevent, 'default action prevented')
		c.state(kind, prevent, count, raise)
		c.outcome(got.length)
	}
}

// Many errors, alike or not, far apart or not.
const many = {
	name: 'many errors',
	async: true,
	async run(c) {
		const kind = c.pick('kind', KINDS)
		const prevent = c.bool('preventDefault')
		const n = c.pick('errors', [2, 11, 60, 260, 1030])
		const alike = c.pick('which are', ['different', 'one object', 'alike', 'two in turns', 'of one message', 'at one place'])
		const apart = c.pick('time between', [0, 1000])
		const m = c.load()
		const x = await make(m, kind, prevent)
		const one = new Error('one')
		let told = 0
		x.app.browser.errors.onChange(() => told++)
		c.step(`${n} errors, ${alike}, ${apart} ms apart, ${kind}`)
		for (let i = 0; i < n; i++) {
			const same = { different: i, 'one object': 0, alike: 0, 'two in turns': i % 2, 'of one message': 0, 'at one place': i }[alike]
			const place = alike === 'different' || alike === 'of one message' ? ['f', i + 1, i] : ['f', 1, 1]
			const ev = event(`e${same}`, place, alike === 'one object' ? one : alike === 'alike' ? new Error('alike') : same)
			m.page.now += apart
			m.page.win.dispatch('error', ev)
			x.expected.push(ev)
			c.is(ev.prevented > 0, prevent, `default action of error ${i} prevented`)
		}
		await c.drain()
		c.is(told, n, 'calls of the subscriber')
		compare(c, m, x, 'at the end')
		c.state(kind, prevent, n, alike, apart)
	}
}

/** The testing utility which raises an error of the page: it is captured as any other, before the utility is done. */
const utility = {
	name: 'errors raised by throwBrowserError',
	async: true,
	async run(c) {
		const prevent = c.bool('preventDefault')
		const count = 1 + c.choose('errors', 3)
		const calls = Array.from({ length: count }, (_, i) => ({
			what: c.pick(`error ${i}`, ['error', 'text', 'null', 'object', 'default']),
			timeout: c.pick(`timeout ${i}`, [undefined, 0, 1, 100])
		}))
		if (!c.mine()) return
		const m = c.load()
		m.page.uncaught = error => m.page.win.dispatch('error', { type: 'error', message: 'Uncaught', filename: 'f', lineno: 1, colno: 2, error, preventDefault() {} })
		const app = await m.appT.justTestApp({ name: 'x' }).with(m.browserT.browserTestGizmoFn({ preventDefault: prevent })).create()
		const all = thrown(m)
		const done = []
		const pending = calls.map(({ what, timeout }, i) =>
			m.browserT.throwBrowserError(what === 'default' ? undefined : all[what], timeout).then(e => {
				c.ok(app.browser.errors.get().length > i, 'the error is captured before the utility is done')
				done[i] = { e }
			})
		)
		c.eq(app.browser.errors.get(), [], 'errors captured before the utility raises any')
		await c.drain()
		await c.drain()
		await Promise.race([Promise.all(pending), new Promise(r => setImmediate(r))])
		c.step(show(calls))
		const errors = app.browser.errors.get()
		c.eq(errors.length, count, 'errors captured')
		calls.forEach(({ what }, i) => {
			c.ok(!!done[i], `utility ${i} is done`)
			if (what === 'default') c.ok(done[i].e?.message === 'some error occurred' && done[i].e === errors[i].cause, 'default error')
			else {
				c.is(done[i].e, all[what], 'result of the utility')
				c.is(errors[i].cause, all[what], 'error captured')
			}
		})
		c.state(prevent, calls)
		c.outcome(calls.map(x => x.what))
	}
}

export default {
	property: 'C25',
	entries,
	scenarios: [shapes, histories, sparse(histories, { quick: 4, thorough: 5 }), chains, many, utility],
	assumptions: ['subscribers do not throw', 'cleanup is of apps assembled directly with browserGizmoFn (a nested incubation, as of the presets, has no cleanup upstream)']
}
