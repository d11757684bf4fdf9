// C03: reads give the last committed value; reset restores the initial one; views are read-only.
import { sparse } from '../lib/explore.mjs'
import { show } from '../lib/values.mjs'
import { counts, lengths, text } from './_large.mjs'
import { entries, makeKind } from './_states.mjs'

function f1() {
	return 'f1'
}
function f2() {
	return 'f2'
}
async function f3() {}
const OBJ = () => ({ o: 1, deep: { x: [1] } })

class Point {
	constructor(x) {
		this.x = x
	}
}

const DOMAINS = {
	primitives: () => [0, undefined, null, Number.NaN, '', false, 7],
	objects: () => [OBJ(), [], {}, null, [0, { a: undefined }], undefined],
	functions: () => [f1, f2, f3, null, undefined],
	'other objects': () => [new Date(0), new Point(1), 10n, Object.assign(Object.create(null), { p: /x/g })]
}

const values = {
	name: 'sets, clears and resets',
	depth: { quick: 4, thorough: 5 },
	run(c) {
		const dom = c.pick('domain', Object.keys(DOMAINS))
		const vals = DOMAINS[dom]()
		const m = c.load()
		const { states } = m
		const vi = c.choose('initial', dom === 'functions' ? 3 : vals.length)
		const init = vals[vi]
		const kind = c.pick('kind', ['store', 'state', 'adder'])
		let s
		if (kind === 'state') {
			const st = states.createState(init)
			c.is(st[0], init, 'value returned by the state')
			let cur = st[0]
			st[2](v => (cur = v))
			s = { get: () => cur, set: st[1], onChange: st[2], reset: st[3] }
		} else if (kind === 'adder') s = states.withAdder(states.createStore(init), () => {})
		else s = states.createStore(init)
		const view = kind === 'state' ? undefined : states.toReadonlyStore(s)
		let cur = init
		c.step(`${kind} of ${dom}, initially ${show(init)}`)
		const fnDomain = dom === 'functions'
		// functions given are values, and what is not plain data supports no updaters
		const n = vals.length + 1 + (fnDomain || dom === 'other objects' ? 0 : 2)
		for (let i = 0; i < c.depth; i++) {
			const k = c.choose('op', n)
			if (k < vals.length) {
				c.step(`set(${show(vals[k])})`)
				s.set(vals[k])
				cur = vals[k]
			} else if (k === vals.length) {
				c.step('reset()')
				s.reset()
				cur = init
			} else if (k === vals.length + 1) {
				c.step('set(() => nothing)')
				s.set(() => states.nothing)
				cur = undefined
			} else {
				c.step('set(() => a value)')
				const v = vals[i % vals.length]
				s.set(() => (v === undefined ? states.nothing : v))
				cur = v
			}
			if (c.look(i)) c.is(s.get(), cur, 'value read')
			if (view && c.look(i)) c.is(view.get(), cur, 'value read through the view')
			c.state(dom, kind, vi, show(cur))
		}
		c.outcome([dom, show(cur)])
	}
}

// Updaters used again and again, which give something else each time.
const again = {
	name: 'updaters used again',
	depth: { quick: 5, thorough: 6 },
	run(c) {
		const kind = c.pick('kind', ['store', 'state', 'registry', 'adder'])
		const m = c.load()
		const { states } = m
		const init = { n: 0 }
		const other = { n: 100 }
		let s
		if (kind === 'state') {
			const st = states.createState(init)
			let now = st[0]
			st[2](v => (now = v))
			s = { get: () => now, set: st[1], reset: st[3] }
		} else s = kind === 'registry' ? states.createRegistry(init) : kind === 'store' ? states.createStore(init) : states.withAdder(states.createStore(init), (d, e) => void (d.n = e))
		let calls = 0
		const seen = []
		const updaters = [
			d => {
				seen.push(d.n)
				d.n = ++calls
			},
			d => {
				seen.push(d.n)
				return { n: ++calls }
			},
			d => {
				seen.push(d.n)
				d.n += 0.5
				calls++
			}
		]
		let cur = { n: 0 }
		for (let i = 0; i < c.depth; i++) {
			const k = c.choose('op', 5)
			const before = calls
			const was = cur.n
			if (k < 3) {
				c.step(`set(updater ${k})`)
				s.set(updaters[k])
				c.eq(calls - before, 1, 'calls of the updater')
				c.eq(seen.splice(0), [was], 'value given to the updater')
				cur = { n: k === 2 ? was + 0.5 : calls }
			} else if (k === 3) {
				c.step('reset()')
				s.reset()
				cur = { n: 0 }
			} else {
				c.step('set(the same object)')
				s.set(other)
				cur = { n: 100 }
			}
			if (c.look(i)) c.eq(s.get(), cur, 'value read')
			c.state(kind, cur)
		}
		c.outcome([kind, cur])
	}
}

const VIEW_OPS = { store: ['get', 'onChange'], registry: ['get', 'has', 'keys', 'onChange', 'size', 'values'] }
const views = {
	name: 'read-only views',
	run(c) {
		const kind = c.pick('kind', ['store', 'registry'])
		const from = c.pick('made of', ['container', 'container with adder', 'before changes', 'view of a view'])
		const op = c.pick('change', ['set', 'updater', 'reset', 'add'])
		const m = c.load()
		const { states } = m
		const toView = kind === 'store' ? states.toReadonlyStore : states.toReadonlyRegistry
		let s = kind === 'store' ? states.createStore({ a: 1 }) : states.createRegistry({ a: 1 })
		s = states.withAdder(s, (r, e) => {
			r.e = e
		})
		const src = from === 'container' ? s : s
		let v = toView(src)
		if (from === 'view of a view') v = toView(v)
		c.eq(Object.keys(v).sort(), VIEW_OPS[kind], 'members of the view')
		s.set({ a: 2, b: 3 })
		c.step(`${kind} view, ${op}`)
		const told = []
		v.onChange((x, p) => told.push([x, p]))
		const before = s.get()
		if (op === 'set') s.set({ z: 1 })
		else if (op === 'updater') s.set(d => void (d.z = 1))
		else if (op === 'reset') s.reset()
		else s.add(5)
		c.eq(told.length, 1, 'changes told through the view')
		c.is(told[0][0], s.get(), 'value told')
		c.is(told[0][1], before, 'previous value told')
		c.is(v.get(), s.get(), 'value of the view')
		if (kind === 'registry') {
			c.eq(v.keys(), s.keys(), 'keys')
			c.eq(v.size(), Object.keys(s.get()).length, 'size')
			c.eq(v.values(), Object.values(s.get()), 'values')
			for (const k of ['a', 'b', 'z', 'e', 'q']) c.eq(v.has(k), k in s.get(), `has(${k})`)
		}
		c.state(kind, from, op, s.get())
		c.outcome([kind, op, s.get()])
	}
}

// Containers made by an app, side by side with the ones made directly.
const viaApp = {
	name: 'containers of an app',
	async: true,
	depth: { quick: 3, thorough: 4 },
	async run(c) {
		const kind = c.pick('kind', ['store', 'state', 'registry'])
		const inits = kind === 'registry' ? [{ a: 1 }, undefined, { [Symbol.for('s')]: 1, a: undefined }] : [{ a: 1 }, 0, null, undefined, '']
		const ii = c.choose('init', inits.length)
		const useMeta = c.bool('own logger')
		const m = c.load()
		const mk = () => (inits[ii] && typeof inits[ii] === 'object' ? { ...inits[ii] } : inits[ii])
		const direct = await makeKind(kind, m, mk())
		const app = await m.appT.justTestApp().with(m.states.statesGizmo).create()
		const meta = useMeta ? { logger: app.log.getLogger('own') } : undefined
		let own
		if (kind === 'store') own = app.states.createStore(mk(), meta)
		else if (kind === 'registry') own = app.states.createRegistry(mk(), meta)
		else {
			const [v0, set, onChange, reset] = app.states.createState(mk(), meta)
			let cur = v0
			onChange(v => (cur = v))
			own = { get: () => cur, set, onChange, reset }
		}
		const told = [[], []]
		;[direct, own].forEach((s, i) => s.onChange((v, p) => told[i].push([v, p])))
		c.step(`${kind} ${show(inits[ii])}`)
		c.eq(own.get(), direct.get(), 'initial value')
		const ops =
			kind === 'registry'
				? [s => s.set({ b: 1 }), s => s.set(d => void (d.c = 1)), s => s.set(d => void delete d.a), s => s.reset()]
				: [s => s.set({ a: 2 }), s => s.set(0), s => s.set(() => null), s => s.set(() => m.states.nothing), s => s.reset()]
		for (let i = 0; i < c.depth; i++) {
			const k = c.choose('op', ops.length)
			c.step(`op ${k}`)
			const r = [direct, own].map(s => c.attempt(() => ops[k](s)))
			c.eq(r[1].threw, r[0].threw, 'throws')
			c.eq(own.get(), direct.get(), 'value')
			c.eq(told[1], told[0], 'changes told')
			if (kind === 'registry') c.eq([own.keys(), own.size(), own.values()], [direct.keys(), direct.size(), direct.values()], 'keys, size, values')
			c.state(kind, own.get())
		}
		c.outcome(own.get())
	}
}

// Large values, and long histories.
const large = {
	name: 'large values and long histories',
	run(c) {
		const kind = c.pick('kind', ['store', 'state', 'adder'])
		const what = c.pick('what', ['sets', 'updates', 'array', 'object', 'deep', 'text'])
		const n = c.pick('size', what === 'text' ? lengths(c) : counts(c))
		if (!c.mine()) return
		const m = c.load()
		const { states } = m
		const value = tag => {
			if (what === 'text') return text(n, tag)
			if (what === 'array') return Array.from({ length: n }, (_, i) => (i % 2 ? `${tag}${i}` : { tag, i }))
			if (what === 'object') return Object.fromEntries(Array.from({ length: n }, (_, i) => [`k${i}`, `${tag}${i}`]))
			if (what === 'deep') {
				let v = { end: tag }
				for (let i = 0; i < n; i++) v = i % 2 ? [v] : { v }
				return v
			}
			return { n: tag }
		}
		const init = value('init')
		let s
		if (kind === 'state') {
			const st = states.createState(init)
			let cur = st[0]
			st[2](v => (cur = v))
			s = { get: () => cur, set: st[1], reset: st[3] }
		} else s = kind === 'adder' ? states.withAdder(states.createStore(init), () => {}) : states.createStore(init)
		const view = kind === 'state' ? undefined : states.toReadonlyStore(s)
		const read = (exp, when) => {
			c.eq(s.get(), exp, `value read ${when}`)
			if (view) c.eq(view.get(), exp, `value of the view ${when}`)
		}
		c.step(`${kind}, ${what} ${n}`)
		read(init, 'at first')
		for (let round = 0; round < 2; round++) {
			if (what === 'sets' || what === 'updates')
				for (let i = 0; i < n; i++) {
					const v = { n: `${round} ${i}` }
					if (what === 'sets') s.set(v)
					else s.set(d => void (d.n = v.n))
					read(v, `after ${i} changes`)
				}
			else {
				const v = value(`round ${round}`)
				s.set(v)
				read(v, 'after set()')
				const w = value(`function ${round}`)
				s.set(() => w)
				read(w, 'after set(() => a value)')
			}
			s.reset()
			read(value('init'), 'after reset()')
		}
		c.state(kind, what, n)
		c.outcome([what, n])
	}
}

export default { property: 'C03', entries, scenarios: [values, sparse(values, { quick: 3, thorough: 4 }), again, views, viaApp, large], assumptions: ['value domains as listed in the scenarios'] }
