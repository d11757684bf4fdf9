// C01: every change is notified exactly once, to every subscriber, in order, with (new, replaced) value.
import { same, show } from '../lib/values.mjs'
import { entries, makeKind, recorder, showCalls } from './_states.mjs'

/** Checks the deliveries of one operation against the observed change. */
function checkDeliveries(c, what, subs, calls, before, after, changed) {
	const exp = changed ? subs.map(tag => ({ tag, value: after, prev: before })) : []
	c.ok(
		calls.length === exp.length &&
			exp.every((e, i) => calls[i].tag === e.tag && Object.is(calls[i].value, e.value) && Object.is(calls[i].prev, e.prev)),
		() => `${what}: handlers called: [${showCalls(calls)}], expected: [${showCalls(exp)}]`
	)
}

const PRIMS = [0, 1, undefined, null, '', Number.NaN, false, -0, 'a', 2n]

// [name, newValue(nothing) -> argument given to set, model: cur -> next]
function primOps(nothing) {
	const ops = PRIMS.map(v => [`set(${show(v)})`, () => v, () => v])
	ops.push(
		['set(d => d)', () => d => d, cur => cur],
		['set(() => {})', () => () => {}, cur => cur],
		['set(() => nothing)', () => () => nothing, () => undefined],
		['set(() => 0)', () => () => 0, () => 0],
		['set(() => null)', () => () => null, () => null],
		["set(() => '')", () => () => '', () => '']
	)
	return ops
}

const primitives = {
	name: 'primitive values',
	depth: { quick: 3, thorough: 4 },
	run(c) {
		const kind = c.pick('kind', ['store', 'state'])
		const init = c.pick('init', [0, undefined, null, 'a'])
		const m = c.load()
		const ops = primOps(m.states.nothing)
		let s
		const inHandler = []
		const rec = recorder(() => inHandler.push(s.get()))
		if (kind === 'store') s = m.states.createStore(init)
		else {
			const [initial, set, onChange, reset] = m.states.createState(init)
			let cur = initial
			onChange(v => (cur = v))
			s = { get: () => cur, set, onChange, reset }
		}
		c.step(`${kind} holding ${show(init)}`)
		let cur = init
		const subs = []
		if (c.bool('a handler from the start')) {
			s.onChange(rec.handler('h0'))
			subs.push('h0')
		}
		for (let i = 0; i < c.depth; i++) {
			const n = ops.length + 1 + (subs.length < 2 ? 1 : 0)
			const k = c.choose('op', n)
			if (k < ops.length) {
				const [name, arg, model] = ops[k]
				const before = cur
				const next = model(cur)
				c.step(name)
				const ret = s.set(arg())
				cur = next
				c.is(s.get(), cur, `value after ${name}`)
				c.is(ret, cur, `result of ${name}`)
				checkDeliveries(c, name, subs, rec.take(), before, cur, !Object.is(before, cur))
			} else if (k === ops.length) {
				const before = cur
				c.step('reset()')
				s.reset()
				cur = init
				c.is(s.get(), cur, 'value after reset()')
				checkDeliveries(c, 'reset()', subs, rec.take(), before, cur, !Object.is(before, cur))
			} else {
				const tag = `h${subs.length}`
				c.step(`subscribe ${tag}`)
				s.onChange(rec.handler(tag))
				subs.push(tag)
				c.eq(rec.take().length, 0, 'calls on subscription')
			}
			for (const v of inHandler.splice(0)) c.is(v, cur, 'value read inside a handler')
			c.state(kind, init, cur, subs)
		}
		c.outcome([cur, subs.length])
	}
}

// Objects: the model is a plain structural value; whether the value changed is told by its identity.
const objects = {
	name: 'object values',
	depth: { quick: 4, thorough: 5 },
	run(c) {
		const kind = c.pick('kind', ['store', 'state', 'registry'])
		const m = c.load()
		const { nothing } = m.states
		const init = { a: 1, n: { x: 0, l: [1, 2] } }
		const other = { a: 2, n: { x: 5, l: [] } }
		const initial = structuredClone(init)
		let s
		const inHandler = []
		const rec = recorder(() => inHandler.push(s.get()))
		if (kind === 'state') {
			const [i0, set, onChange, reset] = m.states.createState(init)
			let cur = i0
			onChange(v => (cur = v))
			s = { get: () => cur, set, onChange, reset }
		} else if (kind === 'registry') s = m.states.createRegistry(init)
		else s = m.states.createStore(init)
		c.step(`${kind}`)
		const subs = []
		let content = structuredClone(init)
		// each: [name, run, model: content => content (mutable clone), 'same': must not change identity]
		const ops = [
			['edit a=3', () => s.set(d => void (d.a = 3)), v => void (v.a = 3)],
			['edit nested x++', () => s.set(d => void d.n.x++), v => void v.n.x++],
			['push nested', () => s.set(d => void d.n.l.push(9)), v => void v.n.l.push(9)],
			['edit n.x to its own value', () => s.set(d => void (d.n.x = d.n.x)), () => {}, true],
			['touch nothing', () => s.set(() => {}), () => {}, true],
			['return draft', () => s.set(d => d), () => {}, true],
			['edit and return draft', () => s.set(d => ((d.a = 4), d)), v => void (v.a = 4)],
			['set(other)', () => s.set(other), () => structuredClone(other)],
			['set(copy of current)', () => s.set({ ...s.get() }), () => {}, false, true],
			['set(current)', () => s.set(s.get()), () => {}, true],
			['return new', () => s.set(() => ({ a: 7, n: { x: 7, l: [] } })), () => ({ a: 7, n: { x: 7, l: [] } })],
			['delete key', () => s.set(d => void delete d.a), v => void delete v.a],
			['reset', () => s.reset(), () => structuredClone(initial)],
			['throw in updater', () => { const r = c.attempt(() => s.set(d => { d.a = 99; throw new Error('x') })); c.ok(r.threw, 'an error thrown by an updater must reach the caller') }, () => {}, true]
		]
		for (let i = 0; i < c.depth; i++) {
			const k = c.choose('op', ops.length + (subs.length < 2 ? 1 : 0))
			if (k === ops.length) {
				const tag = `h${subs.length}`
				c.step(`subscribe ${tag}`)
				s.onChange(rec.handler(tag))
				subs.push(tag)
				continue
			}
			const [name, run, model, unchanged, changes] = ops[k]
			const before = s.get()
			c.step(name)
			run()
			const prevContent = structuredClone(content)
			content = model(content) ?? content
			const after = s.get()
			c.eq(after, content, `value after ${name}`)
			if (unchanged) c.is(after, before, `value after ${name}, which changes nothing`)
			if (changes || !same(prevContent, content)) c.ok(!Object.is(after, before), `${name} must give a new value`)
			checkDeliveries(c, name, subs, rec.take(), before, after, !Object.is(before, after))
			for (const v of inHandler.splice(0)) c.is(v, after, 'value read inside a handler')
			c.state(kind, content, subs)
		}
		c.outcome(content)
	}
}

// Two containers sharing handlers: a change of one is not seen as a change of the other.
const several = {
	name: 'several containers',
	depth: { quick: 4, thorough: 5 },
	run(c) {
		const m = c.load()
		const rec = recorder()
		const kinds = c.pick('kinds', [
			['store', 'store'],
			['registry', 'store'],
			['registry', 'registry']
		])
		const init = { k: 0 }
		const ss = kinds.map(k => (k === 'store' ? m.states.createStore(init) : m.states.createRegistry(init)))
		const ro = ss.map((s, i) => (kinds[i] === 'store' ? m.states.toReadonlyStore(s) : m.states.toReadonlyRegistry(s)))
		const subs = [[], []]
		for (let i = 0; i < c.depth; i++) {
			const w = c.choose('which', 2)
			const s = ss[w]
			const op = c.pick('op', ['edit', 'replace', 'reset', 'subscribe', 'subscribe (readonly view)'])
			c.step(`${op} ${w}`)
			const before = ss.map(s => s.get())
			if (op === 'edit') s.set(d => void d.k++)
			else if (op === 'replace') s.set({ k: 10 * (i + 1) })
			else if (op === 'reset') s.reset()
			else {
				const tag = op === 'subscribe' ? 'shared' : `r${w}`
				;(op === 'subscribe' ? s : ro[w]).onChange(rec.handler(tag))
				if (!subs[w].includes(tag)) subs[w].push(tag)
			}
			const after = ss.map(s => s.get())
			c.is(after[1 - w], before[1 - w], 'value of the other container')
			if (op.startsWith('subscribe')) c.is(after[w], before[w], 'value after subscribing')
			ss.forEach((s, j) => c.is(ro[j].get(), s.get(), 'value read through the readonly view'))
			checkDeliveries(c, `${op} ${w}`, subs[w], rec.take(), before[w], after[w], !Object.is(before[w], after[w]))
			c.state(after, subs)
		}
		c.outcome(ss.map(s => s.get()))
	}
}

// Many handlers, and kinds created through an app.
const manyHandlers = {
	name: 'many handlers, app containers',
	async: true,
	async run(c) {
		const kind = c.pick('kind', ['store', 'state', 'app store', 'app state', 'withAdder', 'registry', 'app registry'])
		const n = c.pick('handlers', [0, 1, 2, 3, 4, 5, 6, 11, 33, 101])
		const when = c.choose('changes before the last subscription', 3)
		const m = c.load()
		const isReg = kind.includes('registry')
		const init = isReg ? {} : []
		const s = await makeKind(kind, m, init)
		const rec = recorder()
		for (let i = 0; i < n; i++) s.onChange(rec.handler(`h${i}`))
		const subs = Array.from({ length: n }, (_, i) => `h${i}`)
		const change = j => s.set(isReg ? d => void (d[`k${j}`] = j) : d => void d.push(j))
		for (let j = 0; j < 4; j++) {
			if (j === when) {
				c.step('late subscription')
				s.onChange(rec.handler('late'))
				subs.push('late')
			}
			const before = s.get()
			c.step(`change ${j}`)
			change(j)
			checkDeliveries(c, `change ${j}`, subs, rec.take(), before, s.get(), true)
			c.state(kind, n, when, j)
		}
		c.outcome([kind, s.get(), n])
	}
}

// Changes made by handlers while a change is being notified.
const reentrant = {
	name: 'changes made inside handlers',
	run(c) {
		const kind = c.pick('kind', ['store', 'state'])
		const n = 2 + c.choose('handlers', 2)
		const who = c.choose('the handler making a nested change', n)
		const nested = c.pick('nested change', ['set', 'updater', 'reset', 'same value'])
		const how = c.pick('first change', ['set', 'updater'])
		const m = c.load()
		let s
		if (kind === 'store') s = m.states.createStore(0)
		else {
			const [initial, set, onChange, reset] = m.states.createState(0)
			let cur = initial
			onChange(v => (cur = v))
			s = { get: () => cur, set, onChange, reset }
		}
		const calls = []
		for (let i = 0; i < n; i++) {
			s.onChange((value, prev) => {
				calls.push([i, value, prev])
				if (i === who && value === 1) {
					if (nested === 'set') s.set(2)
					else if (nested === 'updater') s.set(v => v + 1)
					else if (nested === 'reset') s.reset()
					else s.set(1)
				}
			})
		}
		c.step(`${kind}: handler ${who} of ${n} does ${nested} inside ${how}`)
		if (how === 'set') s.set(1)
		else s.set(() => 1)
		const v2 = nested === 'reset' ? 0 : 2
		const changes = nested === 'same value' ? [[1, 0]] : [[1, 0], [v2, 1]]
		c.is(s.get(), changes.at(-1)[0], 'final value')
		c.note(show(calls))
		c.state(kind, n, who, nested)
		c.outcome(calls)
		for (let i = 0; i < n; i++) {
			const got = calls.filter(x => x[0] === i).map(x => [x[1], x[2]])
			const sorted = [...got].sort((a, b) => changes.findIndex(x => same(x, a)) - changes.findIndex(x => same(x, b)))
			c.eq(sorted, changes, `changes told to handler ${i}`)
			if (!same(got, changes))
				c.fail(`handler ${i} was told of the changes out of order: ${show(got)}`, i > who ? 'reentrant-order' : undefined)
		}
		s.set(50)
		c.eq(
			calls.slice(-n),
			Array.from({ length: n }, (_, i) => [i, 50, v2 === 0 ? 0 : changes.at(-1)[0]]),
			'a later change'
		)
	}
}

// Handlers which change the value again and again: every handler is told of each of the changes.
const chains = {
	name: 'chains of changes made inside handlers',
	run(c) {
		const kind = c.pick('kind', ['store', 'state', 'registry'])
		const n = c.pick('handlers', [1, 2, 5])
		const length = c.pick('changes', [1, 2, 3, 4, 5, 6, 9, 12, 17, 40, 120])
		const how = c.pick('how', ['set', 'updater', 'in turn'])
		const m = c.load()
		const wrap = v => (kind === 'registry' ? { v } : v)
		const unwrap = v => (kind === 'registry' ? v.v : v)
		let s
		if (kind === 'store') s = m.states.createStore(0)
		else if (kind === 'registry') s = m.states.createRegistry({ v: 0 })
		else {
			const [initial, set, onChange] = m.states.createState(0)
			let cur = initial
			onChange(v => (cur = v))
			s = { get: () => cur, set, onChange }
		}
		const calls = Array.from({ length: n }, () => [])
		let last = 0
		for (let i = 0; i < n; i++)
			s.onChange((value, prev) => {
				const v = unwrap(value)
				calls[i].push([v, unwrap(prev)])
				// the last handler makes the changes: the others are told before
				if (i === n - 1 && v < last + length) {
					if (how === 'updater' || (how === 'in turn' && v % 2)) s.set(d => wrap(unwrap(d) + 1))
					else s.set(wrap(v + 1))
				}
			})
		for (let round = 0; round < 3; round++) {
			c.step(`${length} changes`)
			last = unwrap(s.get())
			s.set(wrap(last + 1))
			const expected = Array.from({ length }, (_, i) => [last + i + 1, last + i])
			c.is(unwrap(s.get()), last + length, 'value after all')
			for (let i = 0; i < n; i++) c.eq(calls[i].splice(0), expected, `changes told to handler ${i} of ${n}`)
			c.state(kind, n, length, how, round)
		}
	}
}

// A new object is a new value, also if its content is the same.
const equal = {
	name: 'new values of equal content',
	async: true,
	async run(c) {
		const kind = c.pick('kind', ['store', 'state', 'app store'])
		const [what, make] = c.pick('value', [
			['[]', () => []],
			['{}', () => ({})],
			['[1]', () => [1]],
			['{a: {b: []}}', () => ({ a: { b: [] } })],
			['[[]]', () => [[]]]
		])
		const how = c.pick('how', ['set', 'updater', 'async updater', 'promise of a copy'])
		const m = c.load()
		const s = await makeKind(kind, m, make())
		const rec = recorder()
		s.onChange(rec.handler('h'))
		for (let i = 0; i < 2; i++) {
			const before = s.get()
			c.step(`${how}: another ${what}`)
			const given = make()
			if (how === 'set') s.set(given)
			else if (how === 'updater') s.set(() => given)
			else if (how === 'async updater') await s.set(async () => given)
			else await s.set(() => Promise.resolve(given))
			const after = s.get()
			c.eq(after, make(), 'value')
			c.ok(after !== before, 'a new value must be given')
			checkDeliveries(c, how, ['h'], rec.take(), before, after, true)
			c.state(kind, what, how, i)
		}
		const current = s.get()
		c.step('set to the current value')
		s.set(current)
		s.set(() => current)
		c.is(s.get(), current, 'value')
		c.eq(rec.take().length, 0, 'changes told')
	}
}

export default {
	property: 'C01',
	entries,
	scenarios: [primitives, objects, several, manyHandlers, reentrant, chains, equal],
	assumptions: [
		'values: falsy and special primitives, plain nested objects and arrays; at most 7 handlers, 2 containers',
		'identity (Object.is) of the value decides whether a change happened, as documented'
	]
}
