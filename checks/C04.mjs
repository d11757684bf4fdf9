// C04: state data is immutable except through its setters; a failed update is no update.
import { counts } from './_large.mjs'
import { show } from '../lib/values.mjs'
import { entries } from './_states.mjs'

/** Tries to modify every object reachable from v, in every way. */
function attack(v, seen = new Set()) {
	if (v === null || (typeof v !== 'object' && typeof v !== 'function') || seen.has(v)) return
	seen.add(v)
	const keys = Reflect.ownKeys(v)
	for (const k of keys) attack(v[k], seen)
	for (const k of keys) {
		if (k === 'length') continue
		Reflect.set(v, k, 'attacked')
		Reflect.defineProperty(v, k, { value: 'attacked' })
		Reflect.deleteProperty(v, k)
	}
	Reflect.set(v, 'attacked', true)
	if (Array.isArray(v) && !Object.isFrozen(v)) {
		v.push('attacked')
		v.reverse()
	}
}

const INITS = {
	nested: () => ({ a: 1, n: { x: { y: [1, { z: 1 }] } }, l: [[1], { q: [] }] }),
	array: () => [{ a: [1] }, [2, [3]], 'x'],
	shared: () => {
		const s = { k: [1] }
		return { p: s, q: s, l: [s] }
	},
	nullProto: () => Object.assign(Object.create(null), { a: { b: 1 }, [Symbol.for('s')]: 1 })
}

function ops(kind, m) {
	const isArr = kind === 'array'
	return [
		['edit deep', (s, g) => s.set(d => void g(d))],
		[
			'set value',
			(s, _g, keep) => {
				const v = isArr ? [{ deep: { er: [5] } }] : { fresh: { deep: [{ er: 1 }] } }
				keep(v)
				s.set(v)
			}
		],
		[
			'return value',
			(s, _g, keep) => {
				const v = isArr ? [[{ ret: 1 }]] : { ret: { urned: [{ u: 1 }] } }
				keep(v)
				s.set(() => v)
			}
		],
		[
			'insert data',
			(s, _g, keep) => {
				const v = { ins: { er: ['t'] } }
				keep(v)
				s.set(d => {
					if (Array.isArray(d)) d.push(v)
					else d.inserted = v
				})
			}
		],
		['reset', s => s.reset()],
		['move data', s => s.set(d => { if (Array.isArray(d)) d.unshift(d[0]); else d.moved = d[Object.keys(d)[0]] })]
	]
}

function editDeep(kind) {
	return d => {
		if (kind === 'array') d[0] = { ...d[0], edited: [1] }
		else {
			const k = Object.keys(d)[0]
			if (d[k] && typeof d[k] === 'object') d[k].edited = [1, { e: 1 }]
			else d[k] = { was: d[k] }
		}
	}
}

/** Updates made by promises. */
function asyncOps(kind) {
	const isArr = kind === 'array'
	return [
		['async edit', (s, g) => s.set(async d => void g(d))],
		[
			'async value',
			(s, _g, keep) =>
				s.set(async () => {
					const v = isArr ? [{ la: { ter: [5] } }] : { la: { ter: [{ l: 1 }] } }
					keep(v)
					return v
				})
		],
		[
			'async insertion',
			(s, _g, keep) =>
				s.set(async d => {
					const v = { ins: { er: ['t'] } }
					keep(v)
					if (Array.isArray(d)) d.push(v)
					else d.inserted = v
				})
		]
	]
}

const immutableOf = (name, depth, isAsync) => ({
	name,
	async: true,
	depth,
	async run(c) {
		const init = c.pick('init', Object.keys(INITS))
		const kind = c.pick('kind', ['store', 'state', 'registry', 'withAdder'])
		if (kind === 'registry' && init === 'array') return
		const m = c.load()
		const given = INITS[init]()
		let s
		if (kind === 'store') s = m.states.createStore(given)
		else if (kind === 'registry') s = m.states.createRegistry(given)
		else if (kind === 'withAdder') s = m.states.withAdder(m.states.createStore(given), () => {})
		else {
			const [v0, set, onChange, reset] = m.states.createState(given)
			let cur = v0
			onChange(v => (cur = v))
			s = { get: () => cur, set, onChange, reset }
		}
		const kept = [] // [label, value, text of it]
		const keep = (label, v) => kept.push([label, v, show(v, 12)])
		const supplied = []
		s.onChange((v, p) => {
			keep('delivered', v)
			keep('delivered as previous', p)
			attack(v)
			attack(p)
		})
		const list = isAsync ? [...asyncOps(init), ...ops(init, m).slice(0, 2), ops(init, m)[4]] : ops(init, m)
		keep('initial', s.get())
		supplied.push(given)
		let g = editDeep(init)
		for (let i = 0; i < c.depth; i++) {
			const text0 = show(s.get(), 12)
			for (const v of supplied) attack(v)
			attack(s.get())
			c.is(show(s.get(), 12), text0, 'value after attempts to modify it')
			const k = c.choose('op', list.length)
			c.step(list[k][0])
			list[k][1](s, g, v => supplied.push(v))
			if (isAsync) await c.drain()
			keep(`value ${i}`, s.get())
			attack(s.get())
			for (const [label, v, text] of kept) c.is(show(v, 12), text, `${label}, read earlier`)
			c.state(init, kind, show(s.get(), 12))
		}
		for (const v of supplied) attack(v)
		for (const [label, v, text] of kept) c.is(show(v, 12), text, `${label}, read earlier`)
		s.reset()
		c.is(show(s.get(), 12), show(INITS[init](), 12), 'value after reset')
		c.outcome([init, kept.length])
	}
})

// Updaters that fail after editing.
const failing = {
	name: 'failing updaters',
	depth: { quick: 4, thorough: 5 },
	run(c) {
		const kind = c.pick('kind', ['store', 'state', 'registry', 'withAdder'])
		const m = c.load()
		const base = { a: 1, n: { l: [1] } }
		let s
		if (kind === 'store') s = m.states.createStore(base)
		else if (kind === 'registry') s = m.states.createRegistry(base)
		else if (kind === 'withAdder')
			s = m.states.withAdder(m.states.createStore(base), (r, e) => {
				r.n.l.push(e)
				if (e === 'bad') throw new RangeError('bad entry')
			})
		else {
			const [v0, set, onChange, reset] = m.states.createState(base)
			let cur = v0
			onChange(v => (cur = v))
			s = { get: () => cur, set, onChange, reset }
		}
		const told = []
		s.onChange(v => told.push(v))
		const err = new RangeError('updater')
		const good = {
			edit: () => s.set(d => void d.n.l.push(2)),
			replace: () => s.set({ a: 5, n: { l: [] } }),
			reset: () => s.reset()
		}
		const bad = {
			'throw at once': () => s.set(() => { throw err }),
			'throw after edits': () => s.set(d => { d.a = 'x'; d.n.l.push('x'); delete d.n; throw err }),
			'throw a primitive': () => s.set(d => { d.a = 'x'; throw 'text' }),
			'edit and return another': () => s.set(d => { d.a = 'x'; return { other: 1 } })
		}
		if (kind === 'withAdder') bad['add a bad entry'] = () => s.add('ok', 'bad')
		const names = [...Object.keys(good), ...Object.keys(bad)]
		for (let i = 0; i < c.depth; i++) {
			const name = c.pick('op', names)
			const before = s.get()
			const text = show(before)
			told.length = 0
			c.step(name)
			if (good[name]) {
				good[name]()
				c.eq(told.length, Object.is(before, s.get()) ? 0 : 1, 'changes told')
				if (name === 'edit') c.ok(!Object.is(before, s.get()) && s.get().n.l.at(-1) === 2, 'an update after failures works')
			} else {
				const r = c.attempt(bad[name])
				c.ok(r.threw, `${name}: the error must reach the caller`)
				if (name === 'throw at once' || name === 'throw after edits') c.is(r.error, err, 'the error')
				if (name === 'throw a primitive') c.is(r.error, 'text', 'the error')
				c.is(s.get(), before, 'value after a failed update')
				c.is(show(s.get()), text, 'content after a failed update')
				c.eq(told.length, 0, 'changes told of a failed update')
			}
			c.state(kind, s.get())
		}
		c.outcome([kind, s.get()])
	}
}

const SYM = Symbol('sym')
const symbols = {
	name: 'data under symbol keys',
	run(c) {
		const how = c.pick('given by', ['init', 'set', 'updater', 'returned'])
		const m = c.load()
		const mk = () => ({ a: 1, [SYM]: { c: [1] } })
		const s = m.states.createRegistry(how === 'init' ? mk() : {})
		c.step(how)
		if (how === 'set') s.set(mk())
		else if (how === 'updater') s.set(d => void (d[SYM] = { c: [1] }))
		else if (how === 'returned') s.set(mk)
		const text = show(s.get()[SYM])
		try {
			s.get()[SYM] = 'attacked'
		} catch {}
		c.is(show(s.get()[SYM]), text, 'entry after an attempt to replace it')
		c.state(how)
		c.outcome(how)
		attack(s.get())
		c.is(show(s.get()[SYM]), text, 'data nested under a symbol key, after attempts to modify it')
		s.set(d => void d[SYM].c.push(2))
		c.eq(s.get()[SYM], { c: [1, 2] }, 'data nested under a symbol key, after an update')
		attack(s.get())
		c.eq(s.get()[SYM], { c: [1, 2] }, 'data nested under a symbol key, after attempts to modify it')
	}
}

/** Data which its owner froze, or parts of it: what is nested in them is as immutable as anything else. */
const partly = {
	name: 'data partly frozen beforehand',
	async: true,
	async run(c) {
		const kind = c.pick('kind', ['store', 'state', 'registry'])
		const how = c.pick('given by', ['init', 'set', 'returned', 'returned late', 'inserted', 'inserted late', 'set again'])
		const frozen = [0, 1, 2, 3, 4].map(i => c.bool(`part ${i} frozen`))
		const cyclic = c.bool('cyclic')
		if (!c.mine()) return
		const m = c.load()
		const parts = []
		const part = x => (parts.push(x), x)
		const leaf = part({ c: 1 })
		const list = part([leaf, 'x'])
		const inner = part(Object.assign(Object.create(null), { list, [SYM]: leaf }))
		const fun = () => {}
		const other = part([[2]])
		const given = part({ inner, other, f: fun, n: null })
		if (cyclic) leaf.up = given
		parts.forEach((x, i) => frozen[i] && Object.freeze(x))
		const late = how.endsWith('late')
		const at = how.startsWith('inserted') ? v => v.in : v => v
		const init = how === 'init' ? given : { a: 1 }
		let s
		if (kind === 'state') {
			const st = m.states.createState(init)
			let cur = st[0]
			st[2](v => (cur = v))
			s = { get: () => cur, set: st[1] }
		} else s = kind === 'store' ? m.states.createStore(init) : m.states.createRegistry(init)
		let r
		if (how === 'set') r = s.set(given)
		else if (how === 'set again') {
			s.set({ inner })
			s.set({ b: 1 })
			r = s.set(given)
		} else if (how === 'returned') r = s.set(() => given)
		else if (how === 'returned late') r = s.set(async () => given)
		else if (how === 'inserted') r = s.set(d => void (d.in = given))
		else if (how === 'inserted late') r = s.set(async d => void (d.in = given))
		if (late) await r
		c.step(`${kind} ${how}, frozen ${frozen}`)
		const expected = () => {
			const leaf = { c: 1 }
			const list = [leaf, 'x']
			const v = { inner: Object.assign(Object.create(null), { list, [SYM]: leaf }), other: [[2]], f: fun, n: null }
			if (cyclic) leaf.up = v
			return v
		}
		const text = show(expected())
		c.is(show(at(s.get())), text, 'value')
		for (const x of [given, inner, list, leaf, other, at(s.get())]) {
			for (const k of Reflect.ownKeys(x)) {
				if (k === 'length') continue
				Reflect.set(x, k, 'attacked')
				Reflect.deleteProperty(x, k)
			}
			Reflect.set(x, 'attacked', true)
		}
		c.is(show(at(s.get())), text, 'value after attempts to modify it')
		if (!cyclic) attack(s.get(), new Set([fun]))
		c.is(show(at(s.get())), text, 'value after attempts to modify everything')
		// functions are no data
		fun.mine = 1
		c.is(fun.mine, 1, "member of a function")
		if (!cyclic) {
			const before = s.get()
			s.set(d => void at(d).inner.list.push('more'))
			c.is(show(before), show(how.startsWith('inserted') ? { a: 1, in: expected() } : expected()), 'former value')
			c.eq(at(s.get()).inner.list, [{ c: 1 }, 'x', 'more'], 'value after an edit')
		}
		c.state(kind, how, frozen, cyclic)
		c.outcome([kind, how])
	}
}

// A readonly view: nothing which can be called on it changes the value.
const views = {
	name: 'readonly views',
	async: true,
	async run(c) {
		const kind = c.pick('kind', ['store', 'registry', 'store with adder', 'registry with adder', 'errors of the browser'])
		const changed = c.bool('changed before')
		const arg = c.pick('argument', ['none', 'a value', 'an updater', 'an editing updater'])
		const m = c.load()
		const s = m.states
		const record = kind.startsWith('registry')
		const init = record ? { a: { x: 1 } } : [{ x: 1 }]
		let source
		let view
		if (kind === 'errors of the browser') {
			const app = await m.appT.justTestApp().with(m.browser.browserGizmoFn()).create()
			view = app.browser.errors
			if (changed) m.page.win.dispatch('error', { type: 'error', message: 'x', filename: 'f', lineno: 1, colno: 2, error: new Error('x'), preventDefault() {} })
		} else {
			source = record ? s.createRegistry(init) : s.createStore(init)
			if (kind.endsWith('adder')) source = s.withAdder(source, record ? (r, e) => void (r[e] = e) : s.push)
			view = record ? s.toReadonlyRegistry(source) : s.toReadonlyStore(source)
			if (changed) source.set(record ? { b: 2 } : [2, 3])
		}
		const before = view.get()
		const copy = show(before)
		let told = 0
		view.onChange(() => void told++)
		const args = { none: [], 'a value': [record ? { z: 0 } : ['z']], 'an updater': [() => (record ? { z: 0 } : ['z'])], 'an editing updater': [d => void (record ? (d.z = 0) : d.push?.('z'))] }[arg]
		const keys = new Set()
		for (const k in view) keys.add(k)
		for (const k of Reflect.ownKeys(view)) keys.add(k)
		c.step(`${kind}: every method of the view, with ${arg} as argument`)
		for (const k of keys) {
			if (typeof view[k] !== 'function') continue
			c.attempt(() => view[k](...args))
			c.attempt(() => (0, view[k])(...args))
			await c.drain()
			c.is(view.get(), before, `value after ${String(k)}()`)
			if (source) c.is(source.get(), before, `value of the source after ${String(k)}()`)
		}
		c.is(told, 0, 'changes told')
		c.is(show(before), copy, 'content')
		c.state(kind, changed, arg)
		c.outcome([kind, copy])
	}
}

// Data which is deep, or has many entries.
const large = {
	name: 'large data',
	async: true,
	async run(c) {
		const n = c.pick('size', counts(c))
		const shape = c.pick('shape', ['deep objects', 'deep arrays', 'many keys', 'many items'])
		const how = c.pick('given by', ['init', 'set', 'returned', 'returned late', 'inserted'])
		const m = c.load()
		const make = () => {
			if (shape === 'many keys') return Object.fromEntries(Array.from({ length: n }, (_, i) => [`k${i}`, { v: [i] }]))
			if (shape === 'many items') return { l: Array.from({ length: n }, (_, i) => ({ v: [i] })) }
			let v = { end: [1] }
			for (let i = 0; i < n; i++) v = shape === 'deep arrays' ? [v, i] : { v, i }
			return { v }
		}
		const given = make()
		const s = m.states.createStore(how === 'init' ? given : { a: 1 })
		if (how === 'set') s.set(given)
		if (how === 'returned') s.set(() => given)
		if (how === 'returned late') await s.set(async () => given)
		if (how === 'inserted') s.set(d => void (d.in = given))
		c.step(`${shape} of size ${n}, ${how}`)
		const read = () => (how === 'inserted' ? s.get().in : s.get())
		attack(s.get())
		attack(given)
		c.eq(read(), make(), 'content after everything reachable was attacked')
		s.set(d => void (d.more = 1))
		attack(s.get())
		c.eq(read(), how === 'inserted' ? make() : { ...make(), more: 1 }, 'content after an edit, attacked')
		c.state(n, shape, how)
	}
}

export default {
	property: 'C04',
	entries: { ...entries, browser: ['@just-web/browser', 'browserGizmoFn'] },
	scenarios: [immutableOf('attempts to modify everything reachable', { quick: 4, thorough: 5 }, false), immutableOf('attempts to modify what async updates give', { quick: 3, thorough: 4 }, true), failing, symbols, partly, views, large],
	assumptions: ['plain objects and arrays (also without prototype, or frozen beforehand); class instances, Map and Set are not covered']
}
