// C07: adders add all the given entries, in order, as one single change.
import { same, show } from '../lib/values.mjs'
import { entries as bundleEntries } from './_states.mjs'

const SYM = Symbol('k')
const fn = Object.assign(() => {}, { tag: 'fn' })
const E = { a: { id: 'a', n: 1 }, a2: { id: 'a', n: 2 }, b: { id: 'b', n: [1] }, ctor: { id: 'constructor', n: 0 }, sym: { id: SYM, n: null } }
const bad = { id: 'bad' }

// rule: how the real adder is told; ref: the same on plain data (copies)
const ARRAY = {
	init: () => ['i'],
	alt: () => [{ z: 1 }],
	entries: [undefined, null, 0, '', false, NaN, 'x', 'x', E.a, E.a, fn, [1, 2]],
	rules: {
		push: { of: s => s.push, ref: (a, e) => void a.push(e) },
		unshift: { of: s => s.unshift, ref: (a, e) => void a.unshift(e) },
		'seeing the previous': { of: () => (a, e) => void a.push([a.length, show(a[a.length - 1]) === show(e)]), ref: (a, e) => void a.push([a.length, show(a[a.length - 1]) === show(e)]) },
		unique: { of: () => (a, e) => void (a.some(x => show(x) === show(e)) || a.push(e)), ref: (a, e) => void (a.some(x => show(x) === show(e)) || a.push(e)) },
		'returning something': { of: () => (a, e) => a.push(e), ref: (a, e) => a.push(e) },
		nothing: { of: () => () => {}, ref: () => {} }
	}
}
const first = (r, e) => {
	if (!Object.prototype.hasOwnProperty.call(r, e.id)) r[e.id] = e.n
}
const last = (r, e) => void (r[e.id] = e.n)
const throwing = (r, e) => {
	r[e.id] = e
	if (e === bad || e.id === 'bad') throw e.error ?? bad
}
const count = (r, e) => void (r[e.id] = (Object.prototype.hasOwnProperty.call(r, e.id) ? r[e.id] : 0) + 1)
const remove = (r, e) => {
	if (Object.prototype.hasOwnProperty.call(r, e.id)) delete r[e.id]
}
const RECORD = {
	init: () => ({ a: 0 }),
	alt: () => ({ b: 0, [SYM]: 1 }),
	entries: [E.a, E.a2, E.b, E.ctor, E.sym],
	rules: { first, last, count, remove, throwing }
}

const dup = v => (Array.isArray(v) ? [...v] : { ...v })

function make(kind, m, init, rule) {
	const s = m.states
	switch (kind) {
		case 'withAdder(store)':
			return s.withAdder(s.createStore(init), rule)
		case 'withAdder(registry)':
			return s.withAdder(s.createRegistry(init), rule)
		case 'adder(store)': {
			const x = s.createStore(init)
			return { ...x, add: s.adder(x, rule) }
		}
		case 'adder(registry)': {
			const x = s.createRegistry(init)
			return { ...x, add: s.adder(x, rule) }
		}
		case 'withAdder twice': {
			const x = s.createRegistry(init)
			const y = s.withAdder(s.withAdder(x, () => {}), rule)
			return y
		}
	}
}

/** One container with an adder, a reference and a history of operations. */
function history(c, kind, m, cfg, rule, ref, menuOf, isRegistry) {
	const init = cfg.init()
	const x = make(kind, m, cfg.init(), rule)
	let content = cfg.init()
	const told = []
	x.onChange((v, p) => {
		told.push([v, p])
		c.is(x.get(), v, 'value inside a handler')
	})
	for (let i = 0; i < c.depth; i++) {
		const o = menuOf(i)
		const before = x.get()
		const snap = dup(content)
		let next = dup(content)
		let fails
		switch (o.op) {
			case 'add': {
				c.step(`add(${o.list.map(e => show(e)).join(', ')})`)
				try {
					for (const e of o.list) ref(next, e)
				} catch (e) {
					fails = { e }
					next = snap
				}
				const r = c.attempt(() => x.add(...o.list))
				c.ok(r.threw === !!fails, () => `add ${r.threw ? `throws ${show(r.error)}` : 'does not throw'}`)
				if (fails) c.is(r.error, fails.e, 'error of the rule')
				break
			}
			case 'set':
				next = cfg.alt()
				c.step(`set(${show(next)})`)
				x.set(cfg.alt())
				break
			case 'update':
				c.step('update')
				if (Array.isArray(next)) next.pop()
				else next.u = i
				x.set(d => {
					if (Array.isArray(d)) d.pop()
					else d.u = i
				})
				break
			case 'reset':
				next = init
				c.step('reset()')
				x.reset()
				break
		}
		const after = x.get()
		c.eq(after, next, 'content')
		if (same(next, snap)) {
			if (o.op === 'add') {
				c.eq(told.splice(0), [], 'changes told when nothing was added')
				c.is(after, before, 'value when nothing was added')
			}
			told.length = 0
		} else {
			c.eq(told.length, 1, 'number of changes told')
			c.is(told[0][0], after, 'new value told')
			c.is(told[0][1], before, 'previous value told')
			told.length = 0
		}
		c.eq(before, snap, 'the value read before')
		if (isRegistry) {
			c.eq(new Set(x.keys()), new Set(Reflect.ownKeys(next)), 'keys()')
			c.eq(x.size(), Reflect.ownKeys(next).length, 'size()')
			c.ok(x.keys().every(k => x.has(k)), 'has()')
			x.keys().forEach((k, j) => c.is(x.values()[j], after[k], 'values()'))
		}
		content = next
		c.state(kind, content)
	}
	c.outcome(content)
	return { x, content }
}

function lists(entries, max) {
	let out = [[]]
	let level = [[]]
	for (let i = 0; i < max; i++) {
		level = level.flatMap(l => entries.map(e => [...l, e]))
		out = out.concat(level)
	}
	return out
}

const arrays = {
	name: 'arrays: lists of entries',
	depth: { quick: 2, thorough: 2 },
	run(c) {
		const kind = c.pick('kind', ['withAdder(store)', 'adder(store)'])
		const name = c.pick('rule', Object.keys(ARRAY.rules))
		const m = c.load()
		c.note(`${kind}, rule ${name}`)
		const menu = [...lists(ARRAY.entries, c.tier === 'thorough' ? 2 : 1), ['x', 'x', 1], [E.a, E.a], [null, undefined], [0, '', false]].map(list => ({ op: 'add', list }))
		history(c, kind, m, ARRAY, ARRAY.rules[name].of(m.states), ARRAY.rules[name].ref, i => (i === 0 || c.tier === 'thorough' ? menu[c.choose('add', menu.length)] : [{ op: 'add', list: ['x', E.a, 'y'] }, { op: 'reset' }, { op: 'set' }, { op: 'update' }][c.choose('then', 4)]))
	}
}

const arrayHistories = {
	name: 'arrays: histories',
	depth: { quick: 4, thorough: 6 },
	run(c) {
		const kind = c.pick('kind', ['withAdder(store)', 'adder(store)'])
		const name = c.pick('rule', Object.keys(ARRAY.rules))
		const menu = [[], [1], [2, 1], ['i', 'i', {}]].map(list => ({ op: 'add', list })).concat({ op: 'set' }, { op: 'update' }, { op: 'reset' })
		const m = c.load()
		history(c, kind, m, ARRAY, ARRAY.rules[name].of(m.states), ARRAY.rules[name].ref, () => menu[c.choose('op', menu.length)])
	}
}

const records = {
	name: 'records and registries: lists of entries',
	depth: { quick: 2, thorough: 2 },
	run(c) {
		const kind = c.pick('kind', ['withAdder(registry)', 'adder(registry)', 'withAdder(store)', 'withAdder twice'])
		const name = c.pick('rule', Object.keys(RECORD.rules))
		const max = c.tier === 'thorough' ? 3 : 2
		const entries = [...RECORD.entries, ...(name === 'throwing' ? [bad] : [])]
		const menu = lists(entries, max).map(list => ({ op: 'add', list }))
		const after = [{ op: 'reset' }, { op: 'set' }, { op: 'update' }, { op: 'add', list: [E.a2, E.ctor] }, { op: 'add', list: [] }]
		const m = c.load()
		c.note(`${kind}, rule ${name}`)
		history(c, kind, m, RECORD, RECORD.rules[name], RECORD.rules[name], i => (i === 0 ? menu[c.choose('add', menu.length)] : after[c.choose('then', after.length)]), !kind.includes('store'))
	}
}

const recordHistories = {
	name: 'records and registries: histories',
	depth: { quick: 4, thorough: 5 },
	run(c) {
		const kind = c.pick('kind', ['withAdder(registry)', 'adder(registry)', 'withAdder twice'])
		const name = c.pick('rule', Object.keys(RECORD.rules))
		const menu = [[], [E.a], [E.b, E.a2], [E.sym, E.sym, E.ctor], ...(name === 'throwing' ? [[E.b, bad, E.sym]] : [])].map(list => ({ op: 'add', list })).concat({ op: 'set' }, { op: 'update' }, { op: 'reset' })
		const m = c.load()
		history(c, kind, m, RECORD, RECORD.rules[name], RECORD.rules[name], () => menu[c.choose('op', menu.length)], true)
	}
}

// Adding all at once, and one at a time, side by side; and one change told for the former.
const together = {
	name: 'all at once and one at a time',
	run(c) {
		const array = c.bool('array')
		const cfg = array ? ARRAY : RECORD
		const name = c.pick('rule', Object.keys(cfg.rules).filter(r => r !== 'throwing'))
		const n = c.choose('entries', 4)
		const list = Array.from({ length: n }, () => cfg.entries[c.choose('entry', Math.min(cfg.entries.length, 9))])
		const m = c.load()
		const rule = array ? cfg.rules[name].of(m.states) : cfg.rules[name]
		const kind = array ? 'withAdder(store)' : 'withAdder(registry)'
		const x = make(kind, m, cfg.init(), rule)
		const y = make(kind, m, cfg.init(), rule)
		const told = []
		x.onChange(v => told.push(v))
		c.step(`${name}: add(${list.map(e => show(e)).join(', ')})`)
		x.add(...list)
		for (const e of list) y.add(e)
		c.eq(x.get(), y.get(), 'content')
		c.eq(Reflect.ownKeys(x.get()), Reflect.ownKeys(y.get()), 'order of the content')
		c.ok(told.length === (same(x.get(), cfg.init()) ? 0 : 1) || (told.length <= 1 && same(x.get(), cfg.init())), `${told.length} changes told`)
		c.state(name, x.get())
	}
}

// A great number of entries, added all at once.
const many = {
	name: 'a great number of entries at once',
	run(c) {
		const array = c.bool('array')
		const cfg = array ? ARRAY : RECORD
		const name = c.pick('rule', Object.keys(cfg.rules).filter(r => r !== 'throwing'))
		const n = c.pick('entries', [16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 250, 256, 257, 1001, 1025])
		const list = Array.from({ length: n }, (_, i) => cfg.entries[(i * 7) % cfg.entries.length])
		const m = c.load()
		const rule = array ? cfg.rules[name].of(m.states) : cfg.rules[name]
		const kind = array ? 'withAdder(store)' : 'withAdder(registry)'
		const x = make(kind, m, cfg.init(), rule)
		const y = make(kind, m, cfg.init(), rule)
		const told = []
		x.onChange(v => told.push(v))
		c.step(`${name}: add(${n} entries)`)
		const given = list.slice()
		x.add(...given)
		for (const e of list) y.add(e)
		c.eq(x.get(), y.get(), 'content')
		c.eq(Reflect.ownKeys(x.get()), Reflect.ownKeys(y.get()), 'order of the content')
		c.ok(told.length <= 1, `${told.length} changes told`)
		if (told.length) c.is(told[0], x.get(), 'told the content')
		c.state(name, n, Reflect.ownKeys(x.get()).length)
	}
}

// The members of the container and of its extension act on the same content.
const shared = {
	name: 'container and extension share the content',
	depth: { quick: 4, thorough: 6 },
	run(c) {
		const reg = c.bool('registry')
		const m = c.load()
		const s = m.states
		const base = reg ? s.createRegistry({}) : s.createStore([])
		const x = reg ? s.withAdder(base, last) : s.withAdder(base, s.push)
		const y = reg ? s.withAdder(base, first) : s.withAdder(base, s.unshift)
		let ref = reg ? {} : []
		const tx = []
		const tb = []
		const offs = [x.onChange(v => tx.push(v)), base.onChange(v => tb.push(v))]
		const on = [true, true]
		for (let i = 0; i < c.depth; i++) {
			const op = c.pick('op', ['x.add', 'y.add', 'base.set', 'x.set', 'y.reset', 'unsubscribe x'])
			c.step(op)
			const before = x.get()
			const e = reg ? { id: i % 2 ? 'k' : 'l', n: i } : i
			if (op === 'x.add') {
				if (reg) ref = { ...ref, [e.id]: i }
				else ref = [...ref, i]
				x.add(e)
			} else if (op === 'y.add') {
				if (reg) ref = e.id in ref ? ref : { ...ref, [e.id]: i }
				else ref = [i, ...ref]
				y.add(e)
			} else if (op.endsWith('set') && op !== 'y.reset') {
				ref = reg ? { s: i } : [`s${i}`]
				;(op === 'x.set' ? x : base).set(reg ? { s: i } : [`s${i}`])
			} else if (op === 'y.reset') {
				ref = reg ? {} : []
				y.reset()
			} else {
				offs[0]()
				on[0] = false
			}
			for (const z of [base, x, y]) {
				c.eq(z.get(), ref, 'content')
				c.is(z.get(), base.get(), 'content shared')
				if (reg) c.eq(z.keys(), Object.keys(ref), 'keys')
			}
			const exp = Object.is(before, base.get()) ? [] : [ref]
			c.eq(tb.splice(0), exp, 'told on the container')
			c.eq(tx.splice(0), on[0] ? exp : [], 'told on the extension')
			c.state(reg, ref, on)
		}
	}
}

export default {
	property: 'C07',
	entries: bundleEntries,
	scenarios: [arrays, arrayHistories, records, recordHistories, together, many, shared],
	assumptions: ['rules are synchronous and depend on the record and the entry only']
}
