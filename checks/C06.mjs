// C06: a registry's keys, has, size and values always agree with its content.
import { counts, name } from './_large.mjs'
import { sparse } from '../lib/explore.mjs'
import { show } from '../lib/values.mjs'
import { entries, makeKind } from './_states.mjs'

const S1 = Symbol('s1')
const S2 = Symbol('s2')
const S3 = Symbol.for('s1')
const S4 = Symbol()
// every key that is ever asked for
const KEYS = ['a', 'b', '', ' ', '0', '1', '-1', '01', 'constructor', 'hasOwnProperty', 'toString', 'valueOf', 'isPrototypeOf', 'length', 'keys', 'size', 'get', 'null', 'undefined', S1, S2, S3, S4, Symbol.iterator, '\u0000', 'é', '__proto__']
const fn = Object.assign(() => 'called', { tag: 'f' })
const VALUES = [undefined, null, 0, '', false, NaN, 'x', fn, { a: 1 }, []]

/** Every question on a registry (or view), against the content expected. */
function agree(c, x, model, what) {
	const r = x.get()
	c.eq(new Set(Reflect.ownKeys(r)), new Set(model.keys()), `${what}: keys of the content`)
	for (const [k, v] of model) c.eq(r[k], v, `${what}: content of ${show(k)}`)
	const keys = x.keys()
	c.ok(Array.isArray(keys), `${what}: keys() is an array`)
	c.eq(new Set(keys), new Set(model.keys()), `${what}: keys()`)
	c.eq(keys.length, model.size, `${what}: number of keys()`)
	c.eq(x.size(), model.size, `${what}: size()`)
	const values = x.values()
	c.eq(values.length, keys.length, `${what}: number of values()`)
	keys.forEach((k, i) => c.is(values[i], r[k], `${what}: value ${i}, of ${show(k)}`))
	for (const k of KEYS) c.is(x.has(k), model.has(k), `${what}: has(${show(k)})`)
	// numeric keys may be asked for as numbers
	for (const k of [0, 1, -1]) c.is(x.has(k), model.has(`${k}`), `${what}: has(${k})`)
	return keys
}

const rec = pairs => {
	const r = {}
	for (const [k, v] of pairs) Object.defineProperty(r, k, { value: v, writable: true, enumerable: true, configurable: true })
	return r
}
const model = pairs => new Map(pairs)

function ops(keys, values, replacements) {
	const out = []
	for (const k of keys) {
		for (const v of values) out.push({ op: 'put', k, v })
		out.push({ op: 'delete', k })
	}
	for (const r of replacements) out.push({ op: 'replace', r })
	out.push({ op: 'update', r: [[keys[0], 'u'], [keys[1], undefined]] })
	out.push({ op: 'reset' })
	return out
}

function apply(c, x, o, md, init) {
	switch (o.op) {
		case 'put':
			c.step(`[${show(o.k)}] = ${show(o.v)}`)
			x.set(d => void (d[o.k] = o.v))
			md.set(o.k, o.v)
			return md
		case 'delete':
			c.step(`delete [${show(o.k)}]`)
			x.set(d => void delete d[o.k])
			md.delete(o.k)
			return md
		case 'replace':
			c.step(`set(${show(rec(o.r))})`)
			x.set(rec(o.r))
			return model(o.r)
		case 'update':
			c.step(`set(() => ${show(rec(o.r))})`)
			x.set(() => rec(o.r))
			return model(o.r)
		case 'reset':
			c.step('reset()')
			x.reset()
			return model(init)
	}
}

function history(c, x, m, menu, init, depth) {
	const view = m.states.toReadonlyRegistry(x)
	const seen = []
	let md = model(init)
	x.onChange(v => {
		seen.push(v)
		if (c.looks !== undefined) return
		c.is(x.get(), v, 'content inside a handler')
		c.eq(x.keys().length, Reflect.ownKeys(v).length, 'keys() inside a handler')
	})
	agree(c, x, md, 'registry')
	agree(c, view, md, 'view')
	for (let i = 0; i < depth; i++) {
		const o = menu[c.choose('op', menu.length)]
		md = apply(c, x, o, md, init)
		if (c.look(i)) {
			const keys = agree(c, x, md, 'registry')
			c.eq(agree(c, view, md, 'view'), keys, 'keys of the view')
		}
		c.state([...md.keys()], [...md.values()])
	}
	// answers given earlier are not changed by later operations, and changing them changes nothing
	const k0 = x.keys()
	k0.push('other')
	x.values().push('other')
	agree(c, x, md, 'registry, after changing the arrays it gave')
	c.outcome([...md])
}

const wide = {
	name: 'every key, every value',
	depth: { quick: 2, thorough: 2 },
	run(c) {
		const ks = KEYS.filter(k => k !== '__proto__')
		const menu = ops(ks, c.tier === 'thorough' ? VALUES.slice(0, 5) : [undefined, 0, 'x'], [[], [[S1, 1], ['toString', undefined]]])
		const init = c.pick('initial', [[], [['a', undefined], ['0', 0], [S1, null], ['constructor', '']]])
		const m = c.load()
		history(c, m.states.createRegistry(rec(init)), m, menu, init, c.depth)
	}
}

const deep = {
	name: 'long histories',
	depth: { quick: 4, thorough: 5 },
	run(c) {
		const init = c.pick('initial', [undefined, [['hasOwnProperty', 0], [S1, undefined]]])
		const menu = ops(['a', '1', 'hasOwnProperty', S1], [undefined, 'x'], [[['1', null], ['a', false]]])
		const m = c.load()
		const x = init ? m.states.createRegistry(rec(init)) : m.states.createRegistry()
		history(c, x, m, menu, init ?? [], c.depth)
	}
}

const kinds = {
	name: 'each kind of registry',
	async: true,
	depth: { quick: 2, thorough: 3 },
	async run(c) {
		const kind = c.pick('kind', ['registry', 'app registry', 'registry with adder', 'app registry, default'])
		const init = kind === 'app registry, default' ? [] : [['a', 0], [S2, undefined]]
		const menu = ops(['a', '0', 'toString', S2, ''], [undefined, 0], [[['0', 1]]])
		const m = c.load()
		let x
		if (kind === 'app registry, default') {
			const app = await m.appT.justTestApp().with(m.states.statesGizmo).create()
			x = app.states.createRegistry()
		} else if (kind === 'registry with adder')
			x = m.states.withAdder(m.states.createRegistry(rec(init)), (r, [k, v]) => void (r[k] = v))
		else x = await makeKind(kind, m, rec(init))
		history(c, x, m, menu, init, c.depth)
	}
}

// Contents given as a whole, of every shape: one to three keys of every kind.
const contents = {
	name: 'whole contents',
	run(c) {
		const how = c.pick('through', ['initial', 'set', 'updater'])
		const n = c.choose('entries', 4)
		const pairs = new Map()
		for (let i = 0; i < n; i++) pairs.set(KEYS[c.choose('key', KEYS.length)], i % 2 ? undefined : i)
		const m = c.load()
		const all = [...pairs]
		c.step(`${how} ${show(rec(all))}`)
		let x
		if (how === 'initial') x = m.states.createRegistry(rec(all))
		else {
			x = m.states.createRegistry({ z: 1 })
			if (how === 'set') x.set(rec(all))
			else x.set(() => rec(all))
		}
		agree(c, x, pairs, 'registry')
		agree(c, m.states.toReadonlyRegistry(x), pairs, 'view')
		c.state(how, [...pairs.keys()])
	}
}

// Registries of many entries, and with long keys.
const large = {
	name: 'many entries',
	run(c) {
		const n = c.pick('entries', counts(c))
		const how = c.pick('through', ['initial', 'set', 'updater', 'one by one'])
		const longer = c.bool('long keys')
		const m = c.load()
		const pairs = new Map()
		for (let i = 0; i < n; i++) {
			const key = i % 7 === 3 ? Symbol(`s${i}`) : i % 7 === 5 ? `${i}` : longer ? name(i % 11 === 0 ? 5000 : 100, `k${i}`) : `k${i}`
			pairs.set(key, i % 5 ? i : undefined)
		}
		const all = [...pairs]
		c.step(`${n} entries, ${how}`)
		const x = m.states.createRegistry(how === 'initial' ? rec(all) : undefined)
		if (how === 'set') x.set(rec(all))
		if (how === 'updater') x.set(() => rec(all))
		if (how === 'one by one') for (const [k, v] of all) x.set(r => void (r[k] = v))
		const view = m.states.toReadonlyRegistry(x)
		const both = what => {
			agree(c, x, pairs, `registry ${what}`)
			agree(c, view, pairs, `view ${what}`)
			for (const [k] of all) c.is(x.has(k), pairs.has(k), `has(${show(k)}) ${what}`)
		}
		both('at first')
		all.forEach(([k], i) => {
			if (i % 3) return
			x.set(r => void delete r[k])
			pairs.delete(k)
		})
		both('after removing every third')
		c.state(n, how, longer)
	}
}

export default {
	property: 'C06',
	entries,
	scenarios: [wide, deep, sparse(deep, { quick: 3, thorough: 4 }), kinds, contents, large],
	assumptions: [
		'entries named __proto__ are made by whole contents only (assigning draft.__proto__ is not an entry in JavaScript)',
		'the order of keys() is not specified beyond agreeing with values()'
	]
}
