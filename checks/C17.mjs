// C17: a preference update is done when its promise says so, and failures are reported.
import { counts, ORDERS } from './_large.mjs'
import { createStorage } from '../lib/env.mjs'
import { show } from '../lib/values.mjs'
import { entries, makePrefs, route } from './_prefs.mjs'

export function deferred() {
	const d = {}
	d.promise = new Promise((res, rej) => {
		d.resolve = res
		d.reject = rej
	})
	return d
}

/** get and set of preferences through one of the interfaces. */
function interfaceOf(m, app, how) {
	if (how !== 'store') return route(m, app, how)
	const stores = new Map()
	const of = k => {
		if (!stores.has(k)) stores.set(k, app.preferences.createStore(k))
		return stores.get(k)
	}
	return { get: k => of(k).get(), set: (k, v) => of(k).set(v) }
}

const FAULTS = { writes: ['setItem', 'removeItem'], reads: ['getItem'], quota: ['setItem'] }
function failing(local, which) {
	local.ctl.before = which
		? name => {
				if (FAULTS[which].includes(name)) throw new DOMException(`fault of ${name}`, name === 'setItem' ? 'QuotaExceededError' : 'SecurityError')
			}
		: undefined
}

/** Observes what is told to the caller: {done} once completed, {error} once failed, undefined until then. */
function told(f) {
	const t = {}
	try {
		const p = f()
		if (p && typeof p.then === 'function') {
			p.then(
				() => (t.done = true),
				e => ((t.failed = true), (t.error = e))
			)
		} else t.done = true
	} catch (e) {
		t.failed = true
		t.error = e
	}
	return t
}

function overlapping(name, depth, maxUpdates, cfg) {
	return {
		name,
		async: true,
		depth,
		async run(c) {
			const kind = c.pick('kind', ['memory', 'browser'])
			const how = c.pick('through', cfg.routes)
			const asyncFn = cfg.asyncFn ? c.bool('async function') : false
			const local = createStorage()
			const m = c.load({ local })
			const { nothing } = m.states
			const app = await makePrefs(m, kind, { storage: undefined })
			const r = interfaceOf(m, app, how)
			const keys = cfg.keys
			const M = new Map()
			if (c.bool('set before')) {
				r.set(keys[0], 'before')
				M.set(keys[0], 'before')
			}
			let mode
			let fresh = 0
			const ups = []
			const queue = [] // settled, not committed yet
			const results = [
				{ name: 'value', value: () => `v${fresh++}` },
				...(cfg.back ? [{ name: 'the value before', value: () => 'before' }] : []),
				...(how === 'store' || !cfg.all ? [] : [{ name: 'undefined', value: () => undefined }]),
				...(cfg.all ? [{ name: 'nothing', value: () => nothing }, { name: "''", value: () => '' }] : [{ name: 'nothing', value: () => nothing }]),
				{ name: 'reject', reject: true }
			]
			/** The result of one update, committed now. */
			function commit(u) {
				if (u.reject) {
					u.expect = 'failed'
					return
				}
				const removes = u.result === undefined || u.result === nothing
				const changes = removes ? M.has(u.k) : M.get(u.k) !== u.result
				if (mode === 'writes') {
					u.expect = changes ? 'failed' : 'either'
					return
				}
				u.expect = 'done'
				if (removes) M.delete(u.k)
				else M.set(u.k, u.result)
			}
			async function settle() {
				for (const u of queue.splice(0)) commit(u)
				await c.drain()
			}
			function check(u) {
				const t = u.told
				if (u.expect === undefined) return c.ok(!t.done && !t.failed, () => `update ${u.i} is not settled, but the caller was told ${show(t)}`)
				c.ok(t.done || t.failed, () => `the promise of update ${u.i} never settles`)
				c.ok(!(t.done && t.failed), () => `update ${u.i} both completed and failed`)
				if (u.expect === 'done') c.ok(t.done, () => `update ${u.i} failed: ${show(t.error)}`)
				if (u.expect === 'failed') c.ok(t.failed, () => `update ${u.i} failed, but the caller is told it completed`)
			}
			function compare(what) {
				if (mode !== 'reads') for (const k of keys) c.is(r.get(k), M.get(k), `get(${show(k)}) after ${what}`)
				for (const u of ups) if (!queue.includes(u)) check(u)
				c.eq(c.unhandled.length, 0, `unhandled rejections after ${what}`)
			}
			for (let i = 0; i < c.depth; i++) {
				const menu = []
				if (ups.length < maxUpdates) for (const k of keys) menu.push(['start', k])
				menu.push(['set'], ['throw'])
				if (kind === 'browser') menu.push(['toggle'])
				if (cfg.clear) menu.push(['clear'])
				for (const u of ups.filter(u => !u.settled)) for (const k of results) menu.push(['settle', u, k])
				const [op, a, b] = menu[c.choose('op', menu.length)]
				if (op === 'start') {
					const u = { i: ups.length, k: a, d: deferred() }
					c.step(`start update ${u.i} of ${a}`)
					const body = v => {
						u.seen = [v]
						return u.d.promise
					}
					u.told = told(() => r.set(a, asyncFn ? async v => await body(v) : body))
					c.eq(u.seen, [M.get(a)], `value given to update ${u.i}`)
					ups.push(u)
				} else if (op === 'set') {
					const v = `s${fresh++}`
					c.step(`set(${show(v)})`)
					const u = { i: `(set ${v})`, k: keys[0], result: v }
					u.told = told(() => r.set(keys[0], v))
					commit(u)
					if (!queue.length) await c.drain()
					c.ok(u.told.done || u.told.failed || queue.length, 'outcome of a synchronous set')
					if (u.told.done || u.told.failed) check(u)
				} else if (op === 'throw') {
					c.step('synchronous updater throws')
					const t = told(() =>
						r.set(keys[0], () => {
							throw new Error('thrown')
						})
					)
					if (!queue.length) await c.drain()
					if (!queue.length) c.ok(t.failed, 'the caller is told that the updater has thrown')
				} else if (op === 'toggle') {
					mode = mode ? undefined : 'writes'
					c.step(mode ? 'the storage refuses writes' : 'the storage accepts writes')
					failing(local, mode)
				} else if (op === 'clear') {
					if (mode) continue
					c.step('clearAll')
					app.preferences.clearAll()
					M.clear()
				} else {
					const tick = c.bool('next operation in the same tick')
					a.settled = true
					if (b.reject) {
						a.reject = true
						a.d.reject(new Error(`update ${a.i}`))
					} else {
						a.result = b.value()
						a.d.resolve(a.result)
					}
					c.step(`settle update ${a.i}: ${b.reject ? 'reject' : show(a.result)}${tick ? ' (same tick)' : ''}`)
					queue.push(a)
					if (tick) continue
				}
				if (op === 'settle') await settle()
				else if (queue.length) {
					for (const k of keys) c.is(r.get(k), M.get(k), `get(${show(k)}) before pending settlements`)
					continue
				} else await c.drain()
				compare(op)
				c.state(kind, how, mode, [...M], ups.map(u => [u.k, u.expect, u.settled]))
			}
			await settle()
			compare('the end')
			failing(local)
			mode = undefined
			r.set(keys[0], 'last')
			M.set(keys[0], 'last')
			const u = { i: 'at the end', k: keys[0], result: 'last!' }
			u.told = told(() => r.set(keys[0], async v => `${v}!`))
			M.set(keys[0], 'last!')
			u.expect = 'done'
			ups.push(u)
			await c.drain()
			compare('updates at the end')
			if (kind === 'browser') {
				const again = await makePrefs(c.load({ local }), 'browser')
				const r2 = how === 'store' ? interfaceOf(m, again, 'store') : again.preferences
				for (const k of keys) c.is(r2.get(k), M.get(k), `get(${show(k)}) after a restart`)
			}
			c.outcome([[...M], ups.map(u => u.expect)])
		}
	}
}

// A storage which cannot be read, or written, at each kind of update.
const faults = {
	name: 'every update under every storage fault',
	async: true,
	async run(c) {
		const how = c.pick('through', ['app', 'commands', 'handlers', 'store'])
		const before = c.pick('before', ['set', 'missing'])
		const fault = c.pick('fault', ['writes', 'reads', 'quota', 'reads later', 'writes later', 'quota later', 'writes at first'])
		const update = c.pick('update', ['value', 'function', 'async', 'removal', 'async removal', 'function removal', 'clear', 'throws', 'rejects'])
		const local = createStorage()
		const m = c.load({ local })
		const { nothing } = m.states
		const app = await makePrefs(m, 'browser')
		const r = interfaceOf(m, app, how)
		app.preferences.set('o', 'x')
		if (before === 'set') r.set('k', 'old')
		const old = before === 'set' ? 'old' : undefined
		const entriesBefore = [...local.ctl.map]
		c.step(`${how}: ${update} when ${fault}`)
		const gate = deferred()
		const later = fault.endsWith('later')
		const atFirst = fault.endsWith('first')
		const which = fault.split(' ')[0]
		if (!later) failing(local, which)
		const isAsync = update.startsWith('async') || update === 'rejects'
		const t = told(() => {
			switch (update) {
				case 'value':
					return r.set('k', 'new')
				case 'function':
					return r.set('k', () => 'new')
				case 'async':
					return r.set('k', async () => (await gate.promise, 'new'))
				case 'removal':
					return r.set('k', nothing)
				case 'async removal':
					return r.set('k', async () => (await gate.promise, nothing))
				case 'function removal':
					return r.set('k', () => nothing)
				case 'clear':
					return app.preferences.clearAll()
				case 'throws':
					return r.set('k', () => {
						throw new Error('thrown')
					})
				case 'rejects':
					return r.set('k', async () => {
						await gate.promise
						throw new Error('rejected')
					})
			}
		})
		await c.drain()
		if (isAsync && !t.failed) c.ok(!t.done, 'told completed before the updater settles')
		if (atFirst) failing(local)
		if (later) failing(local, which)
		gate.resolve()
		await c.drain()
		c.ok(t.done || t.failed, 'the promise of the update never settles')
		const unchanged = show([...local.ctl.map]) === show(entriesBefore)
		failing(local)
		const removal = update.includes('removal')
		c.state(how, before, fault, update)
		c.outcome([t.failed, unchanged])
		if (update === 'clear') {
			// clearing is several removals: if it is told to be complete, it is
			if (t.done) c.eq([...local.ctl.map], [], 'entries after clearing')
		} else if (update === 'throws' || update === 'rejects') {
			c.ok(t.failed, 'the caller is told of the failure')
			c.ok(unchanged, 'the storage is unchanged')
		} else if (t.failed) {
			c.ok(unchanged, 'the storage is unchanged by a failed update')
			if (later && !isAsync) c.fail(`failed without a fault: ${show(t.error)}`)
			if (atFirst && isAsync) c.fail(`failed without a fault at the write: ${show(t.error)}`)
		} else {
			c.is(r.get('k'), removal ? undefined : 'new', 'value after a completed update')
			if (which === 'writes' && !later && !(isAsync && atFirst)) c.ok(removal && before === 'missing', 'completed although nothing could be written')
		}
		if (unchanged) c.is(r.get('k'), old, 'value after no change')
		r.set('k', 'again')
		c.is(r.get('k'), 'again', 'a later update')
		const t2 = told(() => r.set('k', async v => `${v}+`))
		await c.drain()
		c.ok(t2.done, 'a later async update completes')
		c.is(r.get('k'), 'again+', 'a later async update')
	}
}

// Many updates which overlap, and many failures in a row.
const crowd = {
	name: 'many overlapping updates',
	async: true,
	async run(c) {
		const kind = c.pick('kind', ['memory', 'browser'])
		const how = c.pick('through', ['app', 'store'])
		const n = c.pick('updates', counts(c))
		const order = c.pick('order', Object.keys(ORDERS))
		const failing = c.pick('failing', [0, 2, 5, 1])
		const m = c.load()
		const app = await makePrefs(m, kind)
		const { get, set } = interfaceOf(m, app, how)
		set('k', 'before')
		const ds = Array.from({ length: n }, deferred)
		const ts = ds.map(d => told(() => set('k', () => d.promise)))
		await c.drain()
		c.is(get('k'), 'before', 'value while every update is pending')
		c.step(`${n} updates settling ${order}`)
		let current = 'before'
		for (const i of ORDERS[order](n)) {
			const fails = failing && i % failing === 0
			if (fails) ds[i].reject(new Error(`update ${i}`))
			else ds[i].resolve((current = `v${i}`))
			await c.drain()
			c.ok(fails ? ts[i].failed && !ts[i].done : ts[i].done && !ts[i].failed, `update ${i} must ${fails ? 'fail' : 'be done'}`)
			if (fails) c.is(ts[i].error?.message, `update ${i}`, 'error')
			c.is(get('k'), current, `value after update ${i}`)
		}
		set('k', 'after')
		c.is(get('k'), 'after', 'value set afterwards')
		c.state(kind, how, n, order, failing)
	}
}

export default {
	property: 'C17',
	entries,
	scenarios: [
		overlapping('two overlapping updates', { quick: 4, thorough: 5 }, 2, { routes: ['app', 'store'], keys: ['a', 'b'], asyncFn: true }),
		overlapping('updates giving back the value before', { quick: 4, thorough: 5 }, 2, { routes: ['app', 'store'], keys: ['a'], back: true }),
		overlapping('through every interface', { quick: 3, thorough: 4 }, 2, { routes: ['app', 'commands', 'handlers', 'store'], keys: ['a'], all: true, asyncFn: true, clear: true }),
		overlapping('three overlapping updates', { quick: 5, thorough: 6 }, 3, { routes: ['app'], keys: ['a'] }),
		faults,
		crowd
	],
	assumptions: ['a storage fault is an exception thrown by setItem, removeItem or getItem', 'the last update to settle wins']
}
