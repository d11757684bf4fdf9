// C27: a failing event listener is logged and never breaks the one who emits.
import { counts, lengths, name as long } from './_large.mjs'
import { EventEmitter as NodeEmitter } from 'node:events'
import { show } from '../lib/values.mjs'

const entries = {
	app: ['@just-web/app', 'justApp', 'createMemoryLogReporter', 'logLevels'],
	appT: ['@just-web/app/testing', 'justTestApp'],
	events: ['@just-web/events', 'eventsGizmoFn', 'justEvent']
}
const ERROR = 400
const THROWN = () => ({
	error: new Error('boom'),
	text: 'text',
	'empty text': '',
	undefined: undefined,
	null: null,
	zero: 0,
	false: false,
	object: { a: 1 },
	frozen: Object.freeze(new Error('frozen')),
	bare: Object.create(null),
	function: () => 'f',
	symbol: Symbol('s')
})
const THROWN_NAMES = Object.keys(THROWN())

/** A minimal emitter of the kind an application may bring along. */
class OwnEmitter {
	#map = new Map()
	listeners(e) {
		return [...(this.#map.get(e) ?? [])].map(l => l.fn)
	}
	addListener(e, fn, once = false) {
		this.#map.set(e, [...(this.#map.get(e) ?? []), { fn, once }])
		return this
	}
	on(e, fn) {
		return this.addListener(e, fn)
	}
	once(e, fn) {
		return this.addListener(e, fn, true)
	}
	removeListener(e, fn) {
		const a = [...(this.#map.get(e) ?? [])]
		const i = a.findIndex(l => l.fn === fn)
		if (i >= 0) a.splice(i, 1)
		this.#map.set(e, a)
		return this
	}
	removeAllListeners(e) {
		if (e === undefined) this.#map.clear()
		else this.#map.delete(e)
		return this
	}
	emit(e, ...args) {
		const a = this.#map.get(e) ?? []
		for (const l of a) {
			if (l.once) this.#map.set(e, this.#map.get(e).filter(x => x !== l))
			l.fn.call(this, ...args)
		}
		return a.length > 0
	}
}
const EMITTERS = ['default', 'default, no options', 'own', 'node']
const supplied = kind => (kind === 'own' ? new OwnEmitter() : kind === 'node' ? new NodeEmitter() : undefined)

async function make(m, kind, o = {}) {
	const reporter = m.app.createMemoryLogReporter({ id: `mem-${o.name ?? 'x'}` })
	const emitter = o.emitter ?? supplied(kind)
	const log = { reporters: [reporter] }
	if (o.logLevel !== undefined) log.logLevel = o.logLevel
	const b = (o.test ? m.appT.justTestApp : m.app.justApp)({ name: o.name ?? 'x', log })
	const app = await b.with(o.gizmo ?? m.events.eventsGizmoFn(kind === 'default, no options' ? undefined : { emitter })).create()
	reporter.logs.length = 0
	return { app, e: app.events.emitter, reporter, emitter, errors: () => reporter.logs.filter(l => l.level <= ERROR) }
}
/** Checks that the log got exactly these thrown values, once each. */
function logged(c, x, thrown, what) {
	const got = x.errors()
	c.eq(got.length, thrown.length, `errors logged ${what} (${show(got.map(l => l.args))})`)
	got.forEach((l, i) => {
		c.eq(l.level, ERROR, `level logged ${what}`)
		c.ok(l.args.some(a => Object.is(a, thrown[i])), () => `entry logged ${what} is ${show(l.args)}, expected ${show(thrown[i])}`)
	})
	x.reporter.logs.length = 0
}
/** Whether the emitter goes on with the other listeners after a failing one: either is fine, always the same. */
function goesOn(x) {
	let second = 0
	const fail = () => {
		throw new Error('probe')
	}
	x.e.addListener('probe', fail)
	x.e.addListener('probe', () => second++)
	x.e.emit('probe')
	x.e.removeAllListeners('probe')
	x.reporter.logs.length = 0
	return second === 1
}

const NAMES = ['a', 'toString']
const MANY = Array.from({ length: 40 }, (_, i) => i)
const SYM = Symbol('s')
/**
 * Listeners (by number): 0 records; 1 fails; 2 emits the other event, then records; 3 emits the other event, then fails;
 * 4 records, but fails every second time.
 */
const histories = (name, depth, o) => ({
	name,
	async: true,
	depth,
	async run(c) {
		const kind = c.pick('emitter', o.emitters ?? EMITTERS)
		const what = c.pick('thrown', o.thrown ?? ['error'])
		const m = c.load()
		const x = await make(m, kind, { test: o.test, logLevel: o.logLevel })
		const { e } = x
		if (x.emitter) c.ok(e === x.emitter || typeof e.emit === 'function', 'emitter')
		const on = goesOn(x)
		const calls = []
		const thrown = THROWN()[what]
		const names = o.names ?? NAMES
		const other = n => names[1 - names.indexOf(n)]
		let nesting = 0
		let flaky = 0
		const LISTENERS = 5
		const fns = Object.fromEntries(
			names.map(n => [
				n,
				Array.from({ length: LISTENERS }, (_, i) => (...args) => {
					calls.push([n, i, args])
					if ((i === 2 || i === 3) && nesting < 1) {
						nesting++
						e.emit(other(n), 'nested')
						nesting--
						calls.push([n, i, 'after'])
					}
					if (i === 1 || i === 3) throw thrown
					if (i === 4 && flaky++ % 2) throw thrown
				})
			])
		)
		// the model
		const L = Object.fromEntries(names.map(n => [n, []]))
		let mNesting = 0
		let mFlaky = 0
		function emit(n, args, out, errs) {
			for (const l of [...L[n]]) {
				if (l.once) L[n] = L[n].filter(q => q !== l)
				out.push([n, l.i, args])
				let failed = false
				if ((l.i === 2 || l.i === 3) && mNesting < 1) {
					mNesting++
					emit(other(n), ['nested'], out, errs)
					mNesting--
					out.push([n, l.i, 'after'])
				}
				if (l.i === 1 || l.i === 3) failed = true
				if (l.i === 4 && mFlaky++ % 2) failed = true
				if (failed) {
					errs.push(thrown)
					if (!on) return
				}
			}
		}
		const ARGS = [[], [1, undefined, { a: 1 }], MANY]
		const listeners = o.listeners ?? [0, 1, 2, 3, 4]
		const ops = []
		for (const n of names) {
			for (const i of listeners) ops.push(['on', n, i])
			ops.push(['emit', n])
			if (o.once) ops.push(['once', n, 1], ['once', n, 0])
			if (o.off) ops.push(['off', n, listeners[0]], ['off', n, 1], ['removeAll', n])
		}
		for (let d = 0; d < c.depth; d++) {
			const [op, n, i] = c.pick('op', ops)
			c.step(`${op} ${String(n)} ${i ?? ''}`)
			if (op === 'on') {
				e.addListener(n, fns[n][i])
				L[n] = [...L[n], { i }]
			} else if (op === 'once') {
				// emitters differ in what they do with the same listener subscribed once more
				if (L[n].some(l => l.i === i && l.once)) return
				e.once(n, fns[n][i])
				L[n] = [...L[n], { i, once: true }]
			} else if (op === 'off') {
				// with the same listener subscribed twice emitters differ in which one goes
				if (L[n].filter(l => l.i === i).length > 1) return
				e.removeListener(n, fns[n][i])
				L[n] = L[n].filter(l => l.i !== i)
			} else if (op === 'removeAll') {
				e.removeAllListeners(n)
				L[n] = []
			} else emitAll(n, 'on emit')
			c.state(kind, what, L, mFlaky % 2)
		}
		if (!c.mine()) return
		for (const n of names) emitAll(n, 'at the end')
		for (const n of names) emitAll(n, 'once more at the end')
		c.outcome([L, calls.length])
		function emitAll(n, when) {
			for (const args of ARGS) {
				calls.length = 0
				const out = []
				const errs = []
				emit(n, args, out, errs)
				const r = c.attempt(() => e.emit(n, ...args))
				c.ok(!r.threw, () => `emit('${String(n)}') ${when} failed: ${show(r.error)}`)
				c.eq(calls, out, `calls of the listeners of '${String(n)}' ${when}`)
				calls.forEach((q, k) => {
					if (Array.isArray(q[2]) && q[2].length === 3) c.is(q[2][2], out[k][2][2], `argument passed ${when}`)
				})
				logged(c, x, o.logLevel === 0 ? [] : errs, when)
			}
		}
	}
})

/** Many listeners, many arguments, many emits, many events and long names. */
const large = {
	name: 'large numbers and long names',
	async: true,
	async run(c) {
		const kind = c.pick('emitter', EMITTERS)
		const what = c.pick('what', ['listeners', 'arguments', 'emits', 'events', 'long name'])
		const fails = c.pick('fails', ['none', 'the last', 'all'])
		const n = c.pick('size', what === 'long name' ? lengths(c) : counts(c))
		if (!c.mine()) return
		const m = c.load()
		const x = await make(m, kind)
		const { e } = x
		e.setMaxListeners?.(0)
		const on = goesOn(x)
		const thrown = new Error('boom')
		const calls = []
		const names = what === 'events' ? Array.from({ length: n }, (_, i) => `e${i}`) : [what === 'long name' ? long(n) : 'a']
		const per = what === 'listeners' ? n : 3
		const failing = i => fails === 'all' || (fails === 'the last' && i === per - 1)
		c.step(`${kind}: ${n} ${what}, ${fails} fail`)
		const fns = names.map((name, k) =>
			Array.from({ length: per }, (_, i) => (...args) => {
				calls.push([k, i, args])
				if (failing(i)) throw thrown
			})
		)
		names.forEach((name, k) => fns[k].forEach(f => e.addListener(name, f)))
		const args = what === 'arguments' ? Array.from({ length: n }, (_, i) => i) : [1, { a: 1 }]
		let off = 0
		const emitAll = when => {
			for (let r = 0; r < (what === 'emits' ? n : 2); r++)
				names.forEach((name, k) => {
					const all = Array.from({ length: per - off }, (_, i) => i + off)
					const called = on ? all : all.slice(0, all.findIndex(failing) + 1 || all.length)
					const res = c.attempt(() => e.emit(name, ...args))
					c.ok(!res.threw, () => `emit ${r} of event ${k} ${when} failed: ${show(res.error)}`)
					c.eq(calls.splice(0), called.map(i => [k, i, args]), `calls at emit ${r} of event ${k} ${when}`)
					logged(c, x, called.filter(failing).map(() => thrown), `at emit ${r} of event ${k} ${when}`)
				})
		}
		emitAll('')
		names.forEach((name, k) => e.removeListener(name, fns[k][0]))
		off = 1
		emitAll('without the first listeners')
		names.forEach(name => e.removeAllListeners(name))
		off = per
		emitAll('without listeners')
		c.state(kind, what, fails, n)
		c.outcome([what, n])
	}
}

/** Two apps, with emitters of their own or sharing the supplied one. */
const two = {
	name: 'two apps',
	async: true,
	depth: { quick: 4, thorough: 6 },
	async run(c) {
		const kind = c.pick('emitter', EMITTERS)
		const m = c.load()
		const gizmo = c.bool('of the same gizmo') && !supplied(kind) ? m.events.eventsGizmoFn(kind === 'default' ? {} : undefined) : undefined
		const xs = [await make(m, kind, { name: 'p', gizmo }), await make(m, kind, { name: 'q', test: true, gizmo })]
		const on = xs.map(goesOn)
		const thrown = new Error('boom')
		const calls = []
		const fns = xs.map((_, i) => [
			() => void calls.push([i, 0]),
			() => {
				calls.push([i, 1])
				throw thrown
			},
			() => {
				calls.push([i, 2])
				xs[1 - i].e.emit('a')
			}
		])
		const L = [[], []]
		for (let d = 0; d < c.depth; d++) {
			const [i, k] = c.pick('op', [0, 1].flatMap(i => [0, 1, 2, 'emit'].map(k => [i, k])))
			c.step(`app ${i}: ${k === 'emit' ? k : `on ${k}`}`)
			if (k === 'emit') check(i)
			else if (!(k === 2 && L[1 - i].includes(2))) {
				// no endless ping-pong
				xs[i].e.addListener('a', fns[i][k])
				L[i].push(k)
			}
			c.state(kind, L)
		}
		if (!c.mine()) return
		check(0)
		check(1)
		c.outcome(L)
		function check(i) {
			calls.length = 0
			const out = []
			const errs = [[], []]
			const emit = j => {
				for (const k of L[j]) {
					out.push([j, k])
					if (k === 1) {
						errs[j].push(thrown)
						if (!on[j]) return
					}
					if (k === 2) emit(1 - j)
				}
			}
			emit(i)
			const r = c.attempt(() => xs[i].e.emit('a'))
			c.ok(!r.threw, () => `emit of app ${i} failed: ${show(r.error)}`)
			c.eq(calls, out, 'calls')
			xs.forEach((x, j) => logged(c, x, errs[j], `by app ${j}`))
		}
	}
}
const shared = {
	name: 'one emitter for two apps',
	async: true,
	async run(c) {
		const kind = c.pick('emitter', ['own', 'node'])
		const what = c.pick('thrown', THROWN_NAMES)
		const by = c.choose('emitted by', 3)
		const at = c.choose('subscribed through', 3)
		const m = c.load()
		const emitter = supplied(kind)
		const xs = [await make(m, kind, { name: 'p', emitter }), await make(m, kind, { name: 'q', emitter })]
		const e = [xs[0].e, xs[1].e, emitter]
		const thrown = THROWN()[what]
		let calls = 0
		e[at].addListener('a', () => {
			calls++
			throw thrown
		})
		c.step(`${kind}: emitted by ${by}, subscribed through ${at}, ${what}`)
		for (let n = 1; n <= 3; n++) {
			const r = c.attempt(() => e[by].emit('a', n))
			c.ok(!r.threw || by === 2, () => `emit failed: ${show(r.error)}`)
			c.eq(calls, n, 'calls of the listener')
			const logs = xs.flatMap(x => x.errors())
			if (by < 2) {
				c.eq(logs.length, n, 'errors logged')
				c.ok(logs.every(l => l.args.some(a => Object.is(a, thrown))), () => `logged ${show(logs.map(l => l.args))}`)
			}
		}
		c.state(kind, what, by, at)
	}
}

const PAYLOADS = [undefined, null, 0, '', 'x', [1, 2], { a: 1 }, () => 1]
const METAS = [undefined, null, { logs: [] }]
const justEvents = {
	name: 'events of justEvent()',
	async: true,
	async run(c) {
		const kind = c.pick('emitter', EMITTERS)
		const how = c.pick('how', ['listenTo/emitBy', 'listenTo/emit', 'addListener/emitBy', 'default listener'])
		const i = c.choose('payload', PAYLOADS.length)
		const j = c.choose('meta', METAS.length)
		const fails = c.pick('fails', [false, ...THROWN_NAMES])
		const m = c.load()
		const x = await make(m, kind)
		const got = []
		const thrown = THROWN()[fails]
		const listener = (v, meta) => {
			got.push([v, meta])
			if (fails) throw thrown
		}
		const other = m.events.justEvent('other')
		other.listenTo(x.e, () => got.push('other'))
		const ev = how === 'default listener' ? m.events.justEvent('ev', listener) : m.events.justEvent('ev')
		c.is(ev.type, 'ev', 'type of the event')
		if (how.startsWith('listenTo')) ev.listenTo(x.e, listener)
		else if (how.startsWith('addListener')) x.e.addListener(ev.type, listener)
		else x.e.addListener(ev.type, ev.defaultListener)
		c.step(`${kind}, ${how}, payload ${i}, meta ${j}, fails ${fails}`)
		for (let n = 0; n < 2; n++) {
			got.length = 0
			const r = c.attempt(() => (how.endsWith('emitBy') ? ev.emitBy(x.e, PAYLOADS[i], METAS[j]) : x.e.emit(ev.type, ...ev(PAYLOADS[i], METAS[j]))))
			c.ok(!r.threw, () => `emitting failed: ${show(r.error)}`)
			c.eq(got.length, 1, 'calls of the listener')
			c.is(got[0][0], PAYLOADS[i], 'payload')
			c.is(got[0][1], METAS[j], 'meta')
			logged(c, x, fails ? [thrown] : [], 'by the event')
		}
		c.state(kind, how, i, j, fails)
	}
}
const supply = {
	name: 'the emitter used',
	async: true,
	async run(c) {
		const kind = c.pick('emitter', EMITTERS)
		const kind2 = c.pick('emitter of the second app', EMITTERS)
		const m = c.load()
		const xs = [await make(m, kind, { name: 'p' }), await make(m, kind2, { name: 'q' })]
		c.step(`${kind} and ${kind2}`)
		xs.forEach((x, i) => {
			const calls = []
			const l = v => calls.push(v)
			x.e.addListener('a', l)
			if (x.emitter) {
				c.eq(x.emitter.listeners('a').length, 1, 'listeners of the emitter supplied')
				x.emitter.emit('a', 1)
				c.eq(calls, [1], 'event of the emitter supplied')
				x.emitter.addListener('b', l)
				x.e.emit('b', 2)
				c.eq(calls, [1, 2], 'event of a listener of the emitter supplied')
			}
			xs[1 - i].e.emit('a', 3)
			c.ok(!calls.includes(3), 'event of another app received')
			c.eq(x.e.listeners('a').length, 1, 'listeners')
			x.e.removeAllListeners('a')
			x.e.removeAllListeners('b')
			x.e.emit('a', 4)
			c.ok(!calls.includes(4), 'event received after removing the listeners')
		})
		c.state(kind, kind2)
	}
}

export default {
	property: 'C27',
	entries,
	scenarios: [
		large,
		histories('histories', { quick: 4, thorough: 5 }, { emitters: ['default', 'node'] }),
		histories('subscribing once and unsubscribing', { quick: 4, thorough: 5 }, { once: true, off: true, listeners: [0, 1] }),
		histories('whatever is thrown', { quick: 2, thorough: 3 }, { thrown: THROWN_NAMES, once: true, test: true }),
		histories('hostile and symbol events', { quick: 3, thorough: 4 }, { names: ['__proto__', SYM], emitters: ['default', 'own', 'node'], thrown: ['error', 'undefined'], listeners: [0, 1, 3] }),
		histories('without logging', { quick: 3, thorough: 4 }, { logLevel: 0, listeners: [0, 1, 3] }),
		two,
		shared,
		justEvents,
		supply
	],
	assumptions: [
		'listeners fail by throwing; what happens to the listeners after a failing one is left open',
		"an emitter shared by two apps logs a failure once, on either of them; listeners which unsubscribe others while notified depend on the emitter"
	]
}
