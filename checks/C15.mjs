// C15: in-memory preferences behave as a map from keys to strings.
import { counts, lengths, name, text } from './_large.mjs'
import { sparse } from '../lib/explore.mjs'
import { show } from '../lib/values.mjs'
import { entries, HOSTILE_KEYS, makePrefs, operations, OPS, ROUTES, route, TEXTS } from './_prefs.mjs'

function readAll(c, m, app, M, keys, routes = ROUTES) {
	for (const how of routes) {
		const r = route(m, app, how)
		for (const k of keys) {
			c.is(r.get(k), M.get(k), `get(${show(k)}) through ${how}`)
			c.is(r.get(k, 'default'), M.has(k) ? M.get(k) : 'default', `get(${show(k)}, 'default') through ${how}`)
		}
	}
}

function apply(c, m, app, how, o, k, M) {
	const seen = []
	const expSeen = []
	o.do(route(m, app, how), k, seen)
	o.ref(M, k, expSeen)
	c.eq(seen, expSeen, `value given to the updater of ${show(k)}`)
}

const wide = {
	name: 'every key and value',
	async: true,
	async run(c) {
		const k = c.pick('key', HOSTILE_KEYS)
		const v = c.pick('value', TEXTS)
		const k2 = c.pick('other key', c.tier === 'thorough' ? HOSTILE_KEYS : ['a', '__proto__', 'a:b', 'constructor'])
		const how = c.pick('through', ROUTES)
		const then = c.pick('then', [...OPS, 'clear'])
		const m = c.load()
		const app = await makePrefs(m, 'memory', { keyboard: how !== 'commands' })
		const M = new Map()
		const ops = operations(m)
		readAll(c, m, app, M, HOSTILE_KEYS)
		c.step(`${show(k)} = ${show(v)} through ${how}`)
		apply(c, m, app, how, ops.to(v), k, M)
		readAll(c, m, app, M, HOSTILE_KEYS, ['app'])
		if (then === 'clear') {
			c.step('clearAll')
			route(m, app, how).clearAll()
			M.clear()
		} else {
			c.step(`${show(k2)} ${then}`)
			apply(c, m, app, how, ops[then], k2, M)
		}
		readAll(c, m, app, M, HOSTILE_KEYS)
		c.eq(m.page.local.ctl.ops, [], 'use of the storage of the page')
		c.state([...M])
		c.outcome([...M])
	}
}

const deep = {
	name: 'histories',
	async: true,
	depth: { quick: 4, thorough: 5 },
	async run(c) {
		const keys = c.pick('keys', [['a', 'b'], ['__proto__', 'constructor'], ['', 'toString']])
		const how = c.pick('through', c.tier === 'thorough' ? ROUTES : ['app'])
		const m = c.load()
		const app = await makePrefs(m, 'memory')
		const M = new Map()
		const ops = operations(m)
		const menu = [['x'], [''], ['set undefined'], ['append'], ['fn undefined'], ['same']]
		for (let i = 0; i < c.depth; i++) {
			const n = c.choose('op', menu.length * 2 + 1)
			if (n === menu.length * 2) {
				c.step('clearAll')
				route(m, app, how).clearAll()
				M.clear()
			} else {
				const k = keys[n % 2]
				const [o] = menu[n >> 1]
				c.step(`${show(k)} ${o}`)
				apply(c, m, app, how, ops[o] ?? ops.to(o), k, M)
			}
			if (c.look(i)) readAll(c, m, app, M, keys, ['app', how])
			c.state([...M].sort())
		}
		readAll(c, m, app, M, HOSTILE_KEYS)
		c.outcome([...M].sort())
	}
}

const routes = {
	name: 'every route, mixed',
	async: true,
	depth: { quick: 3, thorough: 4 },
	async run(c) {
		const m = c.load()
		const app = await makePrefs(m, 'memory')
		const M = new Map()
		const ops = operations(m)
		for (let i = 0; i < c.depth; i++) {
			const how = c.pick('through', ROUTES)
			const o = c.pick('op', ['x', 'append', 'set nothing', 'fn nothing', 'clear'])
			const k = o === 'clear' ? 'a' : c.pick('key', ['a', 'b'])
			c.step(`${o} ${k} through ${how}`)
			if (o === 'clear') {
				route(m, app, how).clearAll()
				M.clear()
			} else apply(c, m, app, how, ops[o] ?? ops.to(`${o}${i}`), k, M)
			readAll(c, m, app, M, ['a', 'b'])
			c.state([...M].sort())
		}
		c.outcome([...M].sort())
	}
}

// An updater which itself sets, removes or clears preferences.
const nested = {
	name: 'updaters acting on preferences',
	async: true,
	async run(c) {
		const before = c.pick('before', ['set', 'missing'])
		const act = c.pick('the updater', ['reads', 'sets another', 'sets the same', 'removes another', 'clears'])
		const result = c.pick('and gives', ['r', '', undefined])
		const how = c.pick('through', ROUTES)
		const m = c.load()
		const app = await makePrefs(m, 'memory')
		const r = route(m, app, how)
		const M = new Map([['o', 'other']])
		r.set('o', 'other')
		if (before === 'set') {
			r.set('k', 'v')
			M.set('k', 'v')
		}
		c.step(`updater ${act}, gives ${show(result)}`)
		let got
		r.set('k', v => {
			got = v
			c.is(r.get('k'), v, 'reading inside the updater')
			if (act === 'sets another') r.set('p', 'q')
			if (act === 'sets the same') r.set('k', 'inner')
			if (act === 'removes another') r.set('o', undefined)
			if (act === 'clears') r.clearAll()
			return result
		})
		c.is(got, M.get('k'), 'value given to the updater')
		if (act === 'sets another') M.set('p', 'q')
		if (act === 'removes another') M.delete('o')
		if (act === 'clears') M.clear()
		if (result === undefined) M.delete('k')
		else M.set('k', result)
		readAll(c, m, app, M, ['k', 'o', 'p'])
		c.state(before, act, result, how)
		c.outcome([...M])
	}
}

// Many preferences, long keys and long texts.
const large = {
	name: 'many preferences, long keys and texts',
	async: true,
	async run(c) {
		const n = c.pick('preferences', counts(c))
		const keyLength = c.pick('length of the keys', [1, 60, 3000])
		const length = c.pick('length of the texts', lengths(c))
		if (n * length > 4e6) return
		const m = c.load()
		const app = await makePrefs(m, 'memory')
		const p = app.preferences
		const key = i => name(keyLength, `k${i}`)
		const value = i => text(length, `${i}`)
		c.step(`${n} preferences`)
		for (let i = 0; i < n; i++) p.set(key(i), value(i))
		for (let i = 0; i < n; i++) c.is(p.get(key(i)), value(i), `preference ${i}`)
		for (let i = 0; i < n; i += 3) p.set(key(i), undefined)
		for (let i = 1; i < n; i += 3) p.set(key(i), v => `${v}+`)
		for (let i = 0; i < n; i++) c.is(p.get(key(i)), [undefined, `${value(i)}+`, value(i)][i % 3], `preference ${i} later`)
		for (let i = 0; i < n; i++) p.set(key(2), `${i}`)
		c.is(p.get(key(2)), `${n - 1}`, 'preference set many times')
		p.clearAll()
		for (let i = 0; i < n; i++) c.is(p.get(key(i), 'd'), 'd', `preference ${i} after clearing`)
		c.state(n, keyLength, length)
	}
}

export default {
	property: 'C15',
	entries,
	scenarios: [wide, deep, sparse(deep, { quick: 3, thorough: 4 }), routes, nested, large],
	assumptions: ['preferences are strings; typed stores are C18, asynchronous updates C17']
}
