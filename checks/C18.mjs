// C18: a typed preference store round-trips every JSON value and its updates.
import { counts, text } from './_large.mjs'
import { sparse } from '../lib/explore.mjs'
import { createStorage } from '../lib/env.mjs'
import { same, show } from '../lib/values.mjs'
import { freezeDeep } from './_states.mjs'
import { entries, makePrefs } from './_prefs.mjs'
import { deferred } from './C17.mjs'

const ABSENT = Symbol('no preference')
const clone = v => (v === undefined || v === ABSENT ? v : structuredClone(v))
const VALUES = [
	null,
	false,
	true,
	0,
	-1.5,
	1e300,
	0.1 + 0.2,
	Number.MAX_SAFE_INTEGER,
	5e-324,
	'',
	'text',
	'null',
	'"q"',
	'é😀\u2028',
	'2020-01-02T03:04:05.678Z',
	[],
	{},
	[null, [0, '']],
	{ a: { b: [1, null, false, ''] }, '': 0, constructor: 1 },
	{ toString: null, length: 0, $: 'undefined', toJSON: 'x', then: null }
]
const DEFAULTS = [undefined, null, 0, '', false, 'd', [1, { x: 1 }], { n: { l: [1] } }]

const isObj = v => typeof v === 'object' && v !== null
/** In-place edits of a draft. */
const EDITS = {
	'adds an entry': d => {
		if (Array.isArray(d)) d.push('new')
		else d.added = [1]
	},
	'changes nested data': d => {
		const k = Object.keys(d)[0]
		if (k === undefined) return
		if (isObj(d[k])) d[k].deep = 1
		else d[k] = 'changed'
	},
	'removes an entry': d => {
		if (Array.isArray(d)) d.pop()
		else delete d[Object.keys(d)[0]]
	}
}

function expectRead(c, store, content, def, what) {
	const v = store.get()
	const exp = content === ABSENT ? def : content
	if (!same(v, exp)) c.fail(`${what}: got ${show(v)}, expected ${show(exp)}`)
	// what was read belongs to the reader: the stored value stays as it is
	if (content !== ABSENT && v !== null && typeof v === 'object') {
		const mine = store.get()
		Reflect.set(mine, Array.isArray(mine) ? 0 : 'mine', 'edited')
		const again = store.get()
		if (!same(again, exp)) c.fail(`${what}: got ${show(again)} after the reader has edited what it read before, expected ${show(exp)}`)
	}
	return v
}

const roundTrip = {
	name: 'every value and default',
	async: true,
	async run(c) {
		const kind = c.pick('kind', ['memory', 'browser'])
		const def = c.pick('default', DEFAULTS)
		const v1 = c.pick('value', VALUES)
		const how = c.pick('set as', ['value', 'result', 'async result', 'async function'])
		const next = c.pick('then', ['set undefined', 'set nothing', 'result nothing', 'async nothing', 'another value', 'unchanged', 'clearAll', ...Object.keys(EDITS)])
		const asyncNext = c.bool('then, asynchronously')
		const local = createStorage()
		const m = c.load({ local })
		const { nothing } = m.states
		const app = await makePrefs(m, kind)
		const mine = clone(def)
		const theirs = clone(def)
		const s = app.preferences.createStore('k', freezeDeep(mine))
		const t = app.preferences.createStore('k')
		const other = app.preferences.createStore('other', theirs)
		expectRead(c, s, ABSENT, def, 'at first')
		expectRead(c, t, ABSENT, undefined, 'at first, without default')
		const given = clone(v1)
		c.step(`${kind}: ${show(v1)} as ${how}, default ${show(def)}`)
		const seen = []
		const noted = d => void seen.push(clone(d))
		if (how === 'value') s.set(given)
		else if (how === 'result') s.set(d => (noted(d), given))
		else if (how === 'async function') await s.set(async d => (noted(d), await undefined, given))
		else await s.set(d => (noted(d), Promise.resolve(given)))
		if (how !== 'value') c.eq(seen.splice(0), [clone(def)], 'value given to the updater')
		const read = expectRead(c, s, v1, def, 'after the set')
		const read2 = expectRead(c, t, v1, undefined, 'after the set, another store')
		expectRead(c, other, ABSENT, def, 'other preference')
		c.eq(given, v1, 'the value supplied')
		c.is(app.preferences.get('k') === undefined, false, 'raw preference exists')
		let content = v1
		c.step(`then ${next}${asyncNext ? ' asynchronously' : ''}`)
		const up = f => (asyncNext ? s.set(async d => (noted(d), await undefined, f(d))) : s.set(d => (noted(d), f(d))))
		if (next === 'set undefined' || next === 'set nothing') {
			s.set(next === 'set undefined' ? undefined : nothing)
			// setting the token itself
			content = ABSENT
		} else if (next === 'result nothing') {
			await up(() => nothing)
			content = ABSENT
		} else if (next === 'async nothing') {
			await s.set(async d => (noted(d), nothing))
			content = ABSENT
		} else if (next === 'another value') {
			await up(d => [d])
			content = [v1]
		} else if (next === 'unchanged') {
			await up(() => undefined)
		} else if (next === 'clearAll') {
			app.preferences.clearAll()
			content = ABSENT
		} else if (isObj(v1)) {
			const edited = clone(v1)
			EDITS[next](edited)
			await up(d => void EDITS[next](d))
			content = edited
		}
		if (seen.length) c.eq(seen, [v1], 'value given to the second updater')
		expectRead(c, s, content, def, 'at the end')
		expectRead(c, t, content, undefined, 'at the end, another store')
		expectRead(c, other, ABSENT, def, 'other preference at the end')
		c.eq([read, read2], [v1, v1], 'values read before')
		c.eq([mine, theirs], [def, def], 'the default values')
		c.eq(given, v1, 'the value supplied, at the end')
		if (content === ABSENT) {
			c.is(app.preferences.get('k'), undefined, 'raw preference')
			// edits start from the default again
			if (isObj(def)) {
				const exp = clone(def)
				EDITS['changes nested data'](exp)
				await up(d => void EDITS['changes nested data'](d))
				expectRead(c, s, exp, def, 'edited default')
				c.eq([mine, theirs], [def, def], 'the default values after an edit')
			}
		}
		if (kind === 'browser') {
			const again = await makePrefs(c.load({ local }), kind)
			expectRead(c, again.preferences.createStore('k', def), s.get(), def, 'after a restart')
		}
		c.state(kind, content === ABSENT ? 'absent' : content, def)
		c.outcome(s.get())
	}
}

const historiesOf = (name, depth, ops, allDefaults) => ({
	name,
	async: true,
	depth,
	async run(c) {
		const kind = c.pick('kind', ['memory', 'browser'])
		const defs = c.pick('defaults', [
			[undefined, undefined],
			[{ l: [0] }, { l: [9] }],
			[{ l: [0] }, undefined]
		].slice(allDefaults ? 0 : 2))
		const m = c.load()
		const { nothing } = m.states
		const app = await makePrefs(m, kind)
		const mine = clone(defs)
		const stores = mine.map(d => app.preferences.createStore('k', d))
		let content = ABSENT
		const old = []
		for (let i = 0; i < c.depth; i++) {
			const which = c.choose('store', 2)
			const s = stores[which]
			const current = content === ABSENT ? defs[which] : content
			const op = c.pick('op', ops)
			c.step(`${op} by store ${which}`)
			const edit = d => {
				if (!isObj(d)) return { l: [`new${i}`] }
				d.l.push(i)
				d[`k${i}`] = { i }
			}
			const edited = () => {
				const d = clone(current)
				return edit(d) ?? d
			}
			if (op === 'set') {
				content = { l: [i], x: null }
				s.set(clone(content))
			} else if (op === 'edit') {
				content = edited()
				s.set(edit)
			} else if (op === 'async edit') {
				content = edited()
				await s.set(async d => (await undefined, edit(d)))
			} else if (op === 'failing edit') {
				const r = c.attempt(() =>
					s.set(d => {
						edit(d)
						throw new Error('failing edit')
					})
				)
				c.ok(r.threw, 'an updater which throws must fail the set')
			} else if (op === 'replace') {
				const got = []
				content = { l: ['r'], from: current ?? null }
				s.set(d => (got.push(clone(d)), { l: ['r'], from: d ?? null }))
				c.eq(got, [current], 'value given to the updater')
				content = clone(content)
			} else if (op === 'remove') {
				s.set(i % 2 ? undefined : () => nothing)
				content = ABSENT
			} else if (op === 'default object') {
				// the default object itself, set as value: later edits must not reach it
				if (defs[which] === undefined) continue
				s.set(mine[which])
				content = clone(defs[which])
			} else {
				app.preferences.set('k', undefined)
				content = ABSENT
			}
			if (c.look(i)) stores.forEach((t, j) => old.push({ v: expectRead(c, t, content, defs[j], `store ${j} after ${op}`), copy: clone(content === ABSENT ? defs[j] : content) }))
			c.eq(mine, defs, `the default values after ${op}`)
			for (const o of old) c.eq(o.v, o.copy, `a value read before, after ${op}`)
			c.state(kind, defs, content === ABSENT ? 'absent' : content)
		}
		c.outcome(content === ABSENT ? 'absent' : content)
	}
})

// An async update of a store, other operations while it is pending.
const pending = {
	name: 'operations during an async update',
	async: true,
	depth: { quick: 3, thorough: 4 },
	async run(c) {
		const kind = c.pick('kind', ['memory', 'browser'])
		const def = c.pick('default', [undefined, { l: [0] }])
		const first = c.pick('at first', ['absent', 'set'])
		const result = c.pick('settles', ['value', 'edit', 'edit before waiting', 'nothing', 'reject', 'edit and reject'])
		const m = c.load()
		const { nothing } = m.states
		const app = await makePrefs(m, kind)
		const mine = clone(def)
		const s = app.preferences.createStore('k', mine)
		const t = app.preferences.createStore('k', mine)
		let content = ABSENT
		if (first === 'set') s.set((content = { l: [1] }))
		content = clone(content)
		const gate = deferred()
		const snapshot = clone(content === ABSENT ? def : content)
		const change = d => (isObj(d) ? void d.l.push('late') : { l: ['late'] })
		let early
		c.step(`${kind} ${result}, ${first}, default ${show(def)}`)
		const p = s.set(async d => {
			if (result === 'edit before waiting' || result === 'edit and reject') early = change(d)
			await gate.promise
			if (result === 'edit before waiting') return early
			if (result === 'value') return { l: ['v'] }
			if (result === 'edit') return change(d)
			if (result === 'nothing') return nothing
			throw new Error('reject')
		})
		let out
		p.then(
			() => (out = 'done'),
			() => (out = 'failed')
		)
		for (let i = 0; i < c.depth; i++) {
			const op = c.pick('op', ['read', 'set', 'edit', 'remove', 'settle'])
			if (op === 'settle' && out) return
			c.step(op)
			if (op === 'set') s.set((content = { l: [`s${i}`] }))
			else if (op === 'edit') {
				const d = clone(content === ABSENT ? def : content)
				const e = x => (isObj(x) ? void x.l.push(i) : { l: [i] })
				content = e(d) ?? d
				t.set(e)
			} else if (op === 'remove') {
				t.set(undefined)
				content = ABSENT
			} else if (op === 'settle') {
				gate.resolve()
				await c.drain()
				c.is(out, result.endsWith('reject') ? 'failed' : 'done', 'outcome of the promise')
				if (result === 'value') content = { l: ['v'] }
				else if (result.startsWith('edit') && out === 'done') content = change(snapshot) ?? snapshot
				else if (result === 'nothing') content = ABSENT
			}
			content = clone(content)
			if (op !== 'settle' && out === undefined) await c.drain()
			expectRead(c, s, content, def, `after ${op}`)
			expectRead(c, t, content, def, `other store after ${op}`)
			c.eq(mine, def, 'the default value')
			c.state(kind, def, content === ABSENT ? 'absent' : content, out)
		}
		gate.resolve()
		await c.drain()
		c.outcome([out, show(s.get())])
	}
}

// Large values, and many updates of one preference.
const large = {
	name: 'large values and many updates',
	async: true,
	async run(c) {
		const kind = c.pick('kind', ['memory', 'browser'])
		const n = c.pick('size', counts(c))
		const shape = c.pick('shape', ['deep', 'wide', 'text'])
		const how = c.pick('updates', ['synchronous', 'awaited one by one', 'editing'])
		const m = c.load()
		const app = await makePrefs(m, kind)
		let big = shape === 'text' ? text(n * 200) : shape === 'wide' ? Array.from({ length: n }, (_, i) => ({ i, t: `é${i}` })) : []
		if (shape === 'deep') for (let i = 0; i < n; i++) big = { i, big }
		const s = app.preferences.createStore('k', { n: 0 })
		c.step(`${shape} of size ${n}`)
		s.set({ n: 0, big })
		c.eq(s.get(), { n: 0, big }, 'value')
		for (let i = 0; i < n; i++) {
			if (how === 'synchronous') s.set(v => ({ ...v, n: v.n + 1 }))
			else if (how === 'editing') s.set(v => void v.n++)
			else await s.set(async v => ({ ...v, n: v.n + 1 }))
		}
		c.eq(s.get(), { n, big }, 'value after the updates')
		s.set(undefined)
		c.eq(s.get(), { n: 0 }, 'value after removing it')
		c.state(kind, n, shape, how)
	}
}

export default {
	property: 'C18',
	entries,
	scenarios: [
		roundTrip,
		historiesOf('two stores of one preference', { quick: 3, thorough: 4 }, ['set', 'edit', 'async edit', 'failing edit', 'replace', 'remove', 'default object', 'raw removal'], true),
		sparse(historiesOf('one preference', {}, ['edit', 'replace', 'remove', 'set', 'raw removal'], false), { quick: 3, thorough: 4 }),
		historiesOf('two stores, longer histories', { quick: 4, thorough: 6 }, ['edit', 'replace', 'remove', 'default object'], false),
		pending,
		large
	],
	assumptions: ['JSON values; numbers are finite', 'in-place edits of an async updater are based on the value at its start']
}
