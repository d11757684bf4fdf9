// C20: memory and browser preferences are interchangeable.
import { sparse } from '../lib/explore.mjs'
import { show } from '../lib/values.mjs'
import { deferred } from './C17.mjs'
import { counts, lengths, name as long, ORDERS, text } from './_large.mjs'
import { entries, HOSTILE_KEYS, makePrefs, route, TEXTS } from './_prefs.mjs'

/** What an operation gives: a value, an error, or a promise (observed when it settles). */
function result(x, f) {
	const o = {}
	try {
		const v = f()
		if (v && typeof v.then === 'function') {
			o.promise = 'pending'
			v.then(
				v => (o.promise = `resolved ${show(v)}`),
				e => (o.promise = `rejected ${show(e)}`)
			)
		} else o.value = show(v)
	} catch (e) {
		o.threw = e instanceof SyntaxError ? 'SyntaxError' : show(e)
	}
	x.results.push(o)
}

const fail = () => {
	throw new Error('updater')
}
/** [name, operation on x]: x holds one app and everything which belongs to it */
function alphabet(keys, how) {
	const out = []
	const add = (name, f) => out.push([name, f])
	const r = x => route(x.m, x.app, how)
	for (const k of keys) {
		const q = show(k)
		add(`set ${q} text`, (x, n) => r(x).set(k, `v${n}`))
		add(`set ${q} ''`, x => r(x).set(k, ''))
		add(`set ${q} undefined`, x => r(x).set(k, undefined))
		add(`set ${q} nothing`, x => r(x).set(k, x.m.states.nothing))
		add(`append to ${q}`, x => r(x).set(k, v => (x.seen.push(v), `${v}+`)))
		add(`update ${q} to undefined`, x => r(x).set(k, v => void x.seen.push(v)))
		add(`update ${q} to nothing`, x => r(x).set(k, v => (x.seen.push(v), x.m.states.nothing)))
		add(`failing update of ${q}`, x => r(x).set(k, fail))
		add(`store ${q}: set object`, (x, n) => x.app.preferences.createStore(k).set({ n: [n] }))
		add(`store ${q} with default: edit`, (x, n) =>
			x.app.preferences.createStore(k, { l: [0] }).set(d => {
				if (d && typeof d === 'object') d[`e${n}`] = n
				else return { from: d ?? null }
			})
		)
		add(`store ${q}: remove`, x => x.app.preferences.createStore(k).set(() => x.m.states.nothing))
		add(`store ${q}: set undefined`, x => x.app.preferences.createStore(k).set(undefined))
		add(`store ${q}: failing update`, x => x.app.preferences.createStore(k).set(fail))
		add(`async update of ${q}`, (x, n) => {
			const d = deferred()
			x.late.push(d)
			return r(x).set(k, async v => (x.seen.push(v), await d.promise, `${v}a${n}`))
		})
		add(`rejecting update of ${q}`, x => {
			const d = deferred()
			x.late.push(d)
			return r(x).set(k, async () => (await d.promise, fail()))
		})
		add(`async removal of ${q}`, x => {
			const d = deferred()
			x.late.push(d)
			return r(x).set(k, async () => (await d.promise, undefined))
		})
	}
	add('settle the first', x => void x.late.shift()?.resolve())
	add('settle the last', x => void x.late.pop()?.resolve())
	add('clear', x => r(x).clearAll())
	return out
}

function read(x, keys, how) {
	const att = f => {
		try {
			return f()
		} catch (e) {
			return e instanceof SyntaxError ? 'SyntaxError' : `throws ${show(e)}`
		}
	}
	const r = route(x.m, x.app, how)
	return keys.map(k => [r.get(k), r.get(k, 'default'), att(() => x.app.preferences.createStore(k).get()), att(() => x.app.preferences.createStore(k, { d: 1 }).get())])
}

function sideBySide(name, depth, cfg) {
	return {
		name,
		async: true,
		depth,
		async run(c) {
			const how = c.pick('through', cfg.routes(c))
			const keys = c.pick('keys', cfg.keys)
			const keyboard = cfg.keyboard ? c.bool('keyboard') : true
			const ops = alphabet(cfg.all ? keys : keys.slice(0, 1), how).filter(([n]) => !cfg.only || cfg.only.test(n))
			const xs = []
			for (const kind of ['memory', 'browser']) {
				const m = c.load()
				xs.push({ kind, m, app: await makePrefs(m, kind, { keyboard }), results: [], seen: [], late: [] })
			}
			const [a, b] = xs
			c.eq(Object.keys(b.app.preferences).sort(), Object.keys(a.app.preferences).sort(), 'operations of the preferences')
			for (let i = 0; i < c.depth; i++) {
				const [op, f] = ops[c.choose('op', ops.length)]
				c.step(`${op} (${how})`)
				for (const x of xs) result(x, () => f(x, i))
				const sameTick = op.startsWith('settle') && c.bool('next operation in the same tick')
				if (!sameTick) await c.drain()
				c.eq(b.results, a.results, 'results of the operations, browser against memory')
				c.eq(b.seen, a.seen, 'values given to the updaters, browser against memory')
				if (!c.look(i)) continue
				c.eq(read(b, keys, how), read(a, keys, how), `preferences after ${op}, browser against memory`)
				c.state(how, keys, read(a, keys, how), a.late.length)
			}
			for (const x of xs) x.late.splice(0).forEach(d => d.resolve())
			await c.drain()
			c.eq(b.results, a.results, 'results at the end, browser against memory')
			c.eq(read(b, HOSTILE_KEYS, 'app'), read(a, HOSTILE_KEYS, 'app'), 'preferences at the end, browser against memory')
			c.eq(b.app.commands.handlers.keys().map(String).sort(), a.app.commands.handlers.keys().map(String).sort(), 'commands')
			c.eq(Object.keys(b.app.commands.contributions.get()).sort(), Object.keys(a.app.commands.contributions.get()).sort(), 'contributions')
			c.outcome([a.results, read(a, keys, how)])
		}
	}
}

const texts = {
	name: 'every key and text',
	async: true,
	async run(c) {
		const k = c.pick('key', HOSTILE_KEYS)
		const v = c.pick('text', TEXTS)
		const via = c.pick('via', ['value', 'function', 'async function', 'store', 'store update'])
		const then = c.pick('then', ['append', 'store edit', 'remove', 'clear', 'failing update'])
		c.step(`${show(k)} = ${show(v)} via ${via}, then ${then}`)
		const xs = []
		for (const kind of ['memory', 'browser']) {
			const m = c.load()
			const x = { m, app: await makePrefs(m, kind), results: [], seen: [] }
			xs.push(x)
			const p = x.app.preferences
			const s = p.createStore(k, 'default')
			result(x, () => (via === 'value' ? p.set(k, v) : via === 'function' ? p.set(k, w => (x.seen.push(w), v)) : via === 'async function' ? p.set(k, async w => (x.seen.push(w), v)) : via === 'store' ? s.set(v) : s.set(w => (x.seen.push(w), v))))
			await c.drain()
			x.reads = [read(x, HOSTILE_KEYS, 'app')]
			result(x, () =>
				then === 'append' ? p.set(k, w => (x.seen.push(w), `${w}${v}`)) : then === 'store edit' ? s.set(w => (x.seen.push(w), [w])) : then === 'remove' ? p.set(k, () => undefined) : then === 'clear' ? p.clearAll() : p.set(k, fail)
			)
			await c.drain()
			x.reads.push(read(x, HOSTILE_KEYS, 'app'))
		}
		const [a, b] = xs
		c.eq(b.results, a.results, 'results, browser against memory')
		c.eq(b.seen, a.seen, 'values given to the updaters, browser against memory')
		c.eq(b.reads, a.reads, 'preferences, browser against memory')
		c.state(k, v, via, then)
		c.outcome(a.reads)
	}
}

const large = {
	name: 'many keys, long keys and long texts',
	async: true,
	async run(c) {
		const what = c.pick('what', ['keys', 'long key', 'text', 'list', 'updates', 'pending'])
		const how = c.pick('through', ['app', 'commands', 'handlers'])
		const order = c.pick('order', what === 'keys' || what === 'pending' ? Object.keys(ORDERS) : ['forwards'])
		const n = c.pick('size', what === 'long key' || what === 'text' ? lengths(c) : counts(c).filter(k => k <= 300))
		if (!c.mine()) return
		c.step(`${what} ${n}, ${how}, ${order}`)
		const list = ORDERS[order](what === 'long key' || what === 'text' ? 2 : n)
		const keyOf = i => (what === 'keys' || what === 'pending' ? `k${i}` : what === 'long key' ? long(n, `k${i}`) : 'k')
		const xs = []
		for (const kind of ['memory', 'browser']) {
			const m = c.load()
			const x = { m, app: await makePrefs(m, kind), results: [], seen: [], late: [] }
			xs.push(x)
			const r = route(m, x.app, how)
			const s = k => x.app.preferences.createStore(`s${k}`, { l: [] })
			for (const i of list) {
				const k = keyOf(i)
				if (what === 'text') result(x, () => r.set(k, text(n, `${i}`)))
				else if (what === 'list') {
					result(x, () => s(k).set(d => void d.l.push(`entry ${i}`)))
				} else if (what === 'updates') result(x, () => r.set(k, v => (x.seen.push(v), `${v ?? ''}${i}.`)))
				else if (what === 'pending') {
					const d = deferred()
					x.late.push(d)
					result(x, () => r.set(k, async v => (await d.promise, `${v ?? ''}${i}`)))
				} else {
					result(x, () => r.set(k, `v${i}`))
					if (i % 3 === 0) result(x, () => r.set(k, v => (x.seen.push(v), `${v}+`)))
					if (i % 7 === 0) result(x, () => r.set(k, undefined))
				}
			}
			for (const d of [...x.late.splice(0, n >> 1), ...x.late.splice(0).reverse()]) d.resolve()
			await c.drain()
			const keys = [...new Set(list.map(keyOf))]
			x.reads = keys.map(k => [r.get(k), r.get(k, 'default'), what === 'list' ? s(k).get() : undefined])
			result(x, () => r.clearAll())
			x.after = keys.map(k => [r.get(k), r.get(k, 'default'), what === 'list' ? s(k).get() : undefined])
		}
		const [a, b] = xs
		for (const f of ['results', 'seen', 'reads', 'after']) c.eq(b[f], a[f], `${f}, browser against memory`)
		c.state(what, how, order, n)
		c.outcome([what, n])
	}
}

export default {
	property: 'C20',
	entries,
	scenarios: [
		large,
		sideBySide('every operation', { quick: 2, thorough: 3 }, { routes: () => ['app', 'commands', 'handlers'], keys: [['a', 'b'], ['__proto__', 'constructor'], ['', 'n:']], all: true, keyboard: true }),
		sideBySide('histories of one key', { quick: 3, thorough: 4 }, { routes: c => (c.tier === 'thorough' ? ['app', 'commands'] : ['app']), keys: [['a', 'b']] }),
		sparse(sideBySide('one key', {}, { routes: () => ['app'], keys: [['a', 'b']] }), { quick: 3, thorough: 4 }),
		sideBySide('overlapping async updates', { quick: 4, thorough: 6 }, { routes: () => ['app'], keys: [['a', 'b']], only: /^async|^rejecting|settle|^set "a" text|^clear/ }),
		texts
	],
	assumptions: ['keys and values are strings, as typed', 'syntax errors of stored texts which are not JSON are compared by kind']
}
