// C05: an async update commits exactly once, when it settles, in every settlement order.
import { counts, ORDERS } from './_large.mjs'
import { show } from '../lib/values.mjs'
import { entries } from './_states.mjs'

function deferred() {
	const d = {}
	d.promise = new Promise((res, rej) => {
		d.resolve = res
		d.reject = rej
	})
	return d
}

const thenable = p => ({ then: (a, b) => p.then(a, b), catch: f => p.catch(f), finally: f => p.finally(f) })

function mk(kind, m, init) {
	if (kind === 'store') return m.states.createStore(init)
	if (kind === 'registry') return m.states.createRegistry(init)
	const [v0, set, onChange, reset] = m.states.createState(init)
	let cur = v0
	onChange(v => (cur = v))
	return { get: () => cur, set, onChange, reset }
}

/**
 * The common exploration: `values` tells what the container holds and how updates are made.
 */
function overlapping(name, depth, maxUpdates, cfg) {
	return {
		name,
		async: true,
		depth,
		async run(c) {
			const kind = c.pick('kind', cfg.kinds)
			const form = c.pick('form', ['promise', 'async function', 'thenable'])
			const m = c.load()
			const { nothing } = m.states
			const init = cfg.init()
			const s = mk(kind, m, init)
			const told = []
			s.onChange((v, p) => {
				told.push([v, p])
				c.is(s.get(), v, 'value read inside a handler')
			})
			let cur = s.get() // actual (identity), content checked by the model
			let content = cfg.init()
			const initial = content
			const ups = []
			const settled = [] // settled, not committed yet
			let expTold = []
			let fresh = 10
			const kinds = cfg.results(nothing)

			function commit(u) {
				// the model of one settlement
				if (u.rejected) return
				let next
				if (u.result === undefined) {
					if (!u.edited) {
						u.expect = { v: content }
						return
					}
					next = u.snapshot
				} else next = u.result === nothing ? undefined : u.result
				u.expect = { v: next }
				if (cfg.primitive ? Object.is(next, content) : false) return
				expTold.push([next, content])
				content = next
			}
			async function settle() {
				for (const u of settled.splice(0)) commit(u)
				await c.drain()
			}
			function compare(what) {
				c.eq(s.get(), content, `value after ${what}`)
				c.eq(told.splice(0), expTold, `changes told after ${what}`)
				expTold = []
				for (const u of ups) {
					if (!u.settled || settled.includes(u)) {
						c.eq(u.out, undefined, `outcome of unsettled update ${u.i}`)
					} else if (u.rejected) {
						c.ok(u.out && 'e' in u.out, () => `update ${u.i} must reject, got ${show(u.out)}`)
						c.is(u.out.e, u.error, `error of update ${u.i}`)
					} else {
						c.ok(u.out && 'v' in u.out, () => `update ${u.i} must resolve, got ${show(u.out)}`)
						c.eq(u.out.v, u.expect.v, `result of update ${u.i}`)
					}
				}
			}
			for (let i = 0; i < c.depth; i++) {
				const pending = ups.filter(u => !u.settled)
				const menu = []
				if (ups.length < maxUpdates) for (const e of cfg.edits) menu.push(['start', e])
				menu.push(['set'], ...(cfg.few ? [] : [['reset']]))
				if (cfg.syncUpdater) menu.push(['update'])
				for (const u of pending) for (const k of kinds) menu.push(['settle', u, k])
				const [op, a, b] = menu[c.choose('op', menu.length)]
				if (op === 'start') {
					const d = deferred()
					const u = { i: ups.length, d, edited: a.edit !== undefined, settled: false }
					c.step(`start update ${u.i}${a.edit ? `, ${a.name}` : ''}`)
					if (a.edit) {
						u.snapshot = structuredClone(content)
						a.edit(u.snapshot, u.i)
					}
					const body = draft => {
						if (a.edit) a.edit(draft, u.i)
						// a promise which was not made by `Promise`, such as the ones of other libraries
						return form === 'thenable' ? thenable(d.promise) : d.promise
					}
					const p = s.set(form === 'async function' ? async draft => await body(draft) : body)
					c.ok(p && typeof p.then === 'function', 'an async update gives a promise')
					p.then(
						v => (u.out = { v }),
						e => (u.out = { e })
					)
					ups.push(u)
				} else if (op === 'set') {
					const v = cfg.value(fresh++)
					c.step(`set(${show(v)})`)
					s.set(v)
					expTold.push([v, content])
					content = v
				} else if (op === 'update') {
					c.step('synchronous update')
					const prev = content
					content = structuredClone(content)
					cfg.syncUpdater(content, i)
					s.set(d => cfg.syncUpdater(d, i))
					expTold.push([content, prev])
				} else if (op === 'reset') {
					c.step('reset()')
					s.reset()
					if (!Object.is(content, initial)) {
						expTold.push([initial, content])
						content = initial
					}
				} else {
					const tick = c.bool('next operation in the same tick')
					c.step(`settle update ${a.i}: ${b.name}${tick ? ' (same tick)' : ''}`)
					a.settled = true
					if (b.reject) {
						a.rejected = true
						a.error = new Error(`update ${a.i}`)
						a.d.reject(a.error)
					} else {
						a.result = b.value === FRESH ? cfg.value(fresh++) : b.value
						a.d.resolve(a.result)
					}
					settled.push(a)
					if (tick) continue
				}
				if (op === 'settle') await settle()
				else if (settled.length) {
					// a synchronous operation while a settlement is still on its way: it comes first
					c.eq(s.get(), content, `value after ${op} before pending settlements`)
					continue
				} else await c.drain()
				compare(op)
				c.state(kind, content, ups.map(u => [u.settled, u.rejected, u.edited]))
			}
			await settle()
			compare('the end')
			if (cfg.primitive) {
				// later operations work normally
				s.set(cfg.value(99))
				c.eq(s.get(), cfg.value(99), 'value set at the end')
				c.eq(told.length, 1, 'changes told at the end')
			}
			c.outcome([show(content), ups.map(u => show(u.out))])
		}
	}
}

const FRESH = Symbol('a fresh value')
const primitives = overlapping('overlapping updates of a primitive', { quick: 5, thorough: 6 }, 2, {
	kinds: ['store', 'state'],
	primitive: true,
	init: () => 1,
	value: n => n,
	edits: [{}],
	results: nothing => [
		{ name: 'value', value: FRESH },
		{ name: 'undefined', value: undefined },
		{ name: 'null', value: null },
		{ name: '0', value: 0 },
		{ name: "''", value: '' },
		{ name: 'false', value: false },
		{ name: 'nothing', value: nothing },
		{ name: 'the initial value', value: 1 },
		{ name: 'reject', reject: true }
	]
})

const objects = overlapping('overlapping updates of an object', { quick: 5, thorough: 6 }, 2, {
	kinds: ['store', 'registry'],
	init: () => ({ a: 1, l: [0] }),
	value: n => ({ a: n, l: [n] }),
	edits: [
		{},
		{
			name: 'editing in place',
			edit: (d, i) => {
				d[`e${i}`] = i
				d.l.push(i)
			}
		}
	],
	syncUpdater: (d, i) => void d.l.push(`s${i}`),
	results: () => [
		{ name: 'undefined', value: undefined },
		{ name: 'reject', reject: true }
	]
})
// an updater which edits in place must not return another value, so objects without edits are settled separately
const replaced = overlapping('updates resolving to objects', { quick: 5, thorough: 6 }, 2, {
	kinds: ['store', 'registry'],
	init: () => ({ a: 1, l: [0] }),
	value: n => ({ a: n, l: [n] }),
	edits: [{}],
	results: () => [
		{ name: 'value', value: FRESH },
		{ name: 'undefined', value: undefined },
		{ name: 'reject', reject: true }
	]
})

const three = overlapping('three overlapping updates', { quick: 6, thorough: 7 }, 3, {
	kinds: ['store'],
	primitive: true,
	init: () => 1,
	value: n => n,
	edits: [{}],
	results: nothing => [
		{ name: 'value', value: FRESH },
		{ name: 'undefined', value: undefined },
		{ name: 'nothing', value: nothing },
		{ name: 'reject', reject: true }
	]
})

const threeEdits = overlapping('three overlapping updates editing in place', { quick: 6, thorough: 8 }, 3, {
	kinds: ['store'],
	init: () => ({ a: 1, l: [0] }),
	value: n => ({ a: n, l: [n] }),
	few: true,
	edits: [
		{
			name: 'editing in place',
			edit: (d, i) => {
				d[`e${i}`] = i
				d.l.push(i)
			}
		}
	],
	results: () => [{ name: 'undefined', value: undefined }]
})

// Subscribing and unsubscribing while updates are on their way: whoever is subscribed at the commit is told.
const subscribing = {
	name: 'subscriptions during updates',
	async: true,
	depth: { quick: 6, thorough: 7 },
	async run(c) {
		const kind = c.pick('kind', ['store', 'state'])
		const m = c.load()
		const s = kind === 'store' ? m.states.createStore(0) : (([, set, onChange, reset]) => ({ set, onChange, reset }))(m.states.createState(0))
		let current = 0
		let n = 0
		const pending = []
		const subs = [] // {tag, off, got}
		for (let i = 0; i < c.depth; i++) {
			const menu = [['set'], ['reset']]
			if (pending.length < 2) menu.push(['start'])
			if (subs.filter(h => h.live).length < 2) menu.push(['subscribe'])
			for (const h of subs) if (h.live) menu.push(['unsubscribe', h])
			for (const d of pending) menu.push(['settle', d], ['reject', d])
			const [op, x] = menu[c.choose('op', menu.length)]
			c.step(`${op} ${x?.tag ?? ''}`)
			const before = current
			if (op === 'subscribe') {
				const h = { tag: `h${subs.length}`, live: true, got: [] }
				h.off = s.onChange((v, p) => h.got.push([v, p]))
				subs.push(h)
			} else if (op === 'unsubscribe') {
				x.off()
				x.live = false
			} else if (op === 'set') s.set((current = ++n))
			else if (op === 'reset') {
				s.reset()
				current = 0
			} else if (op === 'start') {
				const d = deferred()
				d.tag = `update ${i}`
				s.set(() => d.promise).catch(() => {})
				pending.push(d)
			} else {
				pending.splice(pending.indexOf(x), 1)
				if (op === 'settle') x.resolve((current = ++n))
				else x.reject(new Error('x'))
			}
			await c.drain()
			for (const h of subs) c.eq(h.got.splice(0), h.live && !Object.is(before, current) ? [[current, before]] : [], `told to ${h.tag} by ${op}`)
			if (s.get) c.is(s.get(), current, 'value')
			c.state(kind, pending.length, subs.map(h => h.live), current === 0)
		}
		c.outcome([current, subs.length])
	}
}

// Using the draft after the updater has waited for something.
const late = {
	name: 'using the draft after waiting',
	async: true,
	async run(c) {
		const kind = c.pick('kind', ['store', 'state', 'registry'])
		const use = c.pick('use', ['edit', 'edit before and after', 'read', 'return the draft'])
		const m = c.load()
		const s = mk(kind, m, { a: 1, b: 1 })
		const told = []
		s.onChange((v, p) => told.push([v, p]))
		const before = s.get()
		const gate = deferred()
		c.step(`${kind}: ${use}`)
		const p = s.set(async d => {
			if (use !== 'edit' && use !== 'read') d.b = 2
			await gate.promise
			if (use === 'read') return { a: d.a + 1, b: 1 }
			if (use === 'return the draft') return d
			d.a = 2
		})
		let out
		p.then(
			v => (out = { v }),
			e => (out = { e })
		)
		await c.drain()
		c.is(s.get(), before, 'value while the update is pending')
		c.eq(told, [], 'changes told while the update is pending')
		gate.resolve()
		await c.drain()
		c.state(kind, use)
		c.outcome([use, out && 'e' in out])
		c.ok(out, 'the promise of the update settles')
		if ('e' in out) {
			c.is(s.get(), before, 'value after a failed update')
			c.eq(told, [], 'changes told of a failed update')
			c.fail(
				`an async updater cannot ${use} its draft after waiting: ${show(out.e)}`,
				out.e instanceof TypeError ? `draft-after-wait:${use.replaceAll(' ', '-')}` : undefined
			)
		}
		const exp = {
			edit: { a: 2, b: 1 },
			'edit before and after': { a: 2, b: 2 },
			read: { a: 2, b: 1 },
			'return the draft': { a: 1, b: 2 }
		}[use]
		c.eq(s.get(), exp, 'value')
		c.eq(told, [[exp, { a: 1, b: 1 }]], 'changes told')
	}
}

// What an update resolves to is compared with the value as it is at that time, the same way as what is set.
const POOL = [0, -0, Number.NaN, '', '0', null, false, 0n, undefined, 'FRESH']
const sameness = {
	name: 'updates resolving to the same value',
	async: true,
	async run(c) {
		const kind = c.pick('kind', ['store', 'state'])
		const async = c.bool('async')
		const init = c.pick('initial', POOL)
		const m = c.load()
		const s = mk(kind, m, init)
		const told = []
		s.onChange((v, p) => told.push([v, p]))
		let current = init
		for (let i = 0; i < 2; i++) {
			const to = c.pick('result', POOL)
			c.step(`${async ? 'an update resolving to' : 'an update giving'} ${show(to)}`)
			const r = await s.set(async ? () => Promise.resolve(to) : () => to)
			const next = to === undefined ? current : to
			c.is(r, next, 'result')
			c.is(s.get(), next, 'value')
			const l = told.splice(0)
			if (Object.is(next, current)) c.eq(l, [], 'changes told')
			else {
				c.eq(l.length, 1, 'changes told')
				c.is(l[0][0], next, 'value told')
				c.is(l[0][1], current, 'previous value told')
			}
			current = next
			c.state(kind, async, show(init), show(current))
		}
		c.outcome([async, show(current)])
	}
}

// Many overlapping updates, settled in several orders.
const crowd = {
	name: 'many overlapping updates',
	async: true,
	async run(c) {
		const kind = c.pick('kind', ['store', 'state'])
		const n = c.pick('updates', counts(c))
		const order = c.pick('order', Object.keys(ORDERS))
		const failing = c.pick('failing', [0, 2, 5])
		const tick = c.bool('all in the same tick')
		const m = c.load()
		const s = mk(kind, m, -1)
		const told = []
		s.onChange((v, p) => told.push([v, p]))
		const ds = Array.from({ length: n }, deferred)
		const outs = ds.map(d => s.set(() => d.promise).then(v => ({ v }), e => ({ e })))
		c.step(`${n} updates settling ${order}`)
		const error = new Error('x')
		const fails = i => failing && i % failing === 0
		const expected = []
		let current = -1
		for (const i of ORDERS[order](n)) {
			if (fails(i)) ds[i].reject(error)
			else {
				ds[i].resolve(i)
				expected.push([i, current])
				current = i
			}
			if (!tick) await c.drain()
		}
		await c.drain()
		c.eq(told, expected, 'changes told')
		c.is(s.get(), current, 'value')
		for (const [i, o] of (await Promise.all(outs)).entries()) c.eq(o, fails(i) ? { e: error } : { v: i }, `outcome of update ${i}`)
		c.state(kind, n, order, failing, tick)
	}
}

export default {
	property: 'C05',
	entries,
	scenarios: [primitives, objects, replaced, three, threeEdits, subscribing, sameness, late, crowd],
	assumptions: [
		'in-place edits of an async updater are based on the value at its start: a change made meanwhile is replaced at the commit (last writer wins)',
		'promises settled in the same tick commit in the order in which they were settled'
	]
}
