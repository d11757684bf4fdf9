// C02: unsubscribing affects that subscription only, at once, and may be repeated.
import { counts, ORDERS } from './_large.mjs'
import { show } from '../lib/values.mjs'
import { entries, showCalls } from './_states.mjs'

const KINDS = ['store', 'state', 'registry', 'readonly store', 'readonly registry', 'withAdder']

function make(kind, m) {
	const s = m.states
	switch (kind) {
		case 'store': {
			const x = s.createStore({ v: 0 })
			return { ...x, sub: x.onChange }
		}
		case 'withAdder': {
			const x = s.withAdder(s.createStore({ v: 0 }), () => {})
			return { ...x, sub: x.onChange }
		}
		case 'registry': {
			const x = s.createRegistry({ v: 0 })
			return { ...x, sub: x.onChange }
		}
		case 'readonly store': {
			const x = s.createStore({ v: 0 })
			return { ...x, sub: s.toReadonlyStore(x).onChange }
		}
		case 'readonly registry': {
			const x = s.createRegistry({ v: 0 })
			return { ...x, sub: s.toReadonlyRegistry(x).onChange }
		}
		case 'state': {
			const [v0, set, onChange, reset] = s.createState({ v: 0 })
			let cur = v0
			onChange(v => (cur = v))
			return { get: () => cur, set, reset, sub: onChange }
		}
	}
}

/** The reference: an ordered list of active subscriptions. */
function model() {
	const active = []
	return {
		active,
		subscribe(tag) {
			if (active.some(a => a.tag === tag)) return { tag, inert: true }
			const t = { tag }
			active.push(t)
			return t
		},
		dispose(t) {
			const i = active.indexOf(t)
			if (i >= 0) active.splice(i, 1)
		},
		isActive: tag => active.some(a => a.tag === tag)
	}
}

const TAGS = ['A', 'B']
const outside = {
	name: 'subscribing and unsubscribing between changes',
	depth: { quick: 7, thorough: 8 },
	run(c, between) {
		const kind = c.pick('kind', KINDS)
		const m = c.load()
		const s = make(kind, m)
		const md = model()
		const calls = []
		// of the same name and text, as made by a component used twice
		const hs = ['A', 'B'].map(tag => {
			const handler = v => void calls.push({ tag, value: v.v, prev: s.get().v })
			return handler
		})
		const tokens = [] // {dispose, token}
		let n = 0
		let changedLast = false
		for (let i = 0; i < c.depth; i++) {
			// a change is made after every operation, so that only the subscription operations are chosen
			const nt = tokens.length
			const k = c.choose('op', 2 + nt)
			if (k < 2) {
				c.step(`${nt} = subscribe ${TAGS[k]}`)
				tokens.push({ dispose: s.sub(hs[k]), token: md.subscribe(TAGS[k]) })
			} else {
				const t = tokens[k - 2]
				c.step(`unsubscribe ${k - 2} (${t.token.tag}${t.token.inert ? ', duplicate' : ''})`)
				t.dispose()
				md.dispose(t.token)
			}
			c.eq(calls, [], 'calls without a change')
			n = between ? (n === 1 ? 2 : 1) : n + 1
			const before = s.get()
			if (between) s.set(between[n])
			else if (n % 2) s.set(d => void (d.v = n))
			else s.set({ v: n })
			c.eq(s.get(), { v: n }, 'value after a change')
			c.ok(!Object.is(before, s.get()), 'a change gives a new value')
			const exp = md.active.map(a => ({ tag: a.tag, value: n, prev: n }))
			c.eq(calls.splice(0), exp, 'handlers told of the change')
			c.state(kind, md.active.map(a => a.tag), tokens.map(t => [t.token.tag, !!t.token.inert, md.active.includes(t.token)]))
			changedLast = true
		}
		// reset also reaches exactly the active ones
		if (changedLast) {
			s.reset()
			c.eq(calls.map(x => x.tag), md.active.map(a => a.tag), 'handlers told of the reset')
		}
		c.outcome([kind, md.active.map(a => a.tag)])
	}
}

// The value goes back and forth between two: a subscription knows nothing of what its handler was told before.
const alternating = {
	name: 'subscribing and unsubscribing between changes back and forth',
	depth: { quick: 5, thorough: 7 },
	run: c => outside.run(c, [0, { v: 1 }, { v: 2 }])
}

// Each of three subscribers does something when it is told of a change.
const ACTIONS = ['nothing', 'drop self', 'drop first', 'drop second', 'drop third', 'drop all', 'subscribe new', 'resubscribe self']
const inside = {
	name: 'subscribing and unsubscribing while being notified',
	run(c) {
		const kind = c.pick('kind', KINDS)
		const acts = [0, 1, 2].map(i => c.pick(`handler ${i}`, ACTIONS))
		const when = c.choose('acts on change', 2)
		const m = c.load()
		const s = make(kind, m)
		const md = model()
		const tokens = []
		const calls = []
		let change = 0
		let snapshot = []
		let fresh = 0
		let optional = [] // subscribed during this change: may or may not be told of it
		let gone = []
		const dispose = i => {
			tokens[i].dispose()
			if (md.active.includes(tokens[i].token)) gone.push(tokens[i].token.tag)
			md.dispose(tokens[i].token)
		}
		const handlers = []
		function mk(tag, act, idx) {
			const h = Object.assign(
				function handler(value, prev) {
					calls.push(tag)
					c.ok(md.isActive(tag), `${tag} is called after it was unsubscribed`)
					c.eq([value.v, prev.v], [change + 1, change], `values given to ${tag}`)
					c.is(s.get(), value, 'value read inside a handler')
					if (change !== when) return
					switch (act) {
						case 'drop self':
							return dispose(idx)
						case 'drop first':
							return dispose(0)
						case 'drop second':
							return dispose(1)
						case 'drop third':
							return dispose(2)
						case 'drop all':
							return [0, 1, 2].forEach(dispose)
						case 'subscribe new': {
							const tag = `new${fresh++}`
							optional.push(tag)
							s.sub(mk(tag, 'nothing'))
							md.subscribe(tag)
							return
						}
						case 'resubscribe self':
							dispose(idx)
							optional.push(tag)
							tokens[idx] = { dispose: s.sub(h), token: md.subscribe(tag) }
							return
					}
				},
				{ tag }
			)
			return h
		}
		;[0, 1, 2].forEach(i => {
			const h = mk(`h${i}`, acts[i], i)
			handlers.push(h)
			tokens.push({ dispose: s.sub(h), token: md.subscribe(`h${i}`) })
		})
		c.step(`${kind}, handlers do: ${acts.join(', ')} on change ${when}`)
		for (; change < 4; change++) {
			snapshot = md.active.map(a => a.tag)
			optional = []
			gone = []
			calls.length = 0
			c.step(`change ${change}`)
			if (change === 2) s.set({ v: change + 1 })
			else s.set(d => void (d.v = change + 1))
			c.eq(s.get(), { v: change + 1 }, 'value')
			c.note(`told: ${calls.join(' ')}`)
			for (const t of snapshot) {
				const k = calls.filter(x => x === t).length
				if (optional.includes(t)) c.ok(k === 1 || k === 2, `${t}, which resubscribed itself, was called ${k} times`)
				else if (gone.includes(t)) c.ok(k <= 1, `${t} was called ${k} times`)
				else c.ok(k === 1, `${t} was called ${k} times for one change`)
			}
			for (const t of calls) c.ok(snapshot.includes(t) || optional.includes(t), `${t} is not subscribed`)
			for (const t of optional) if (!snapshot.includes(t)) c.ok(calls.filter(x => x === t).length <= 1, `${t} called twice`)
			// order of the ones subscribed before
			const order = calls.filter(t => !optional.includes(t))
			c.eq(order, snapshot.filter(t => order.includes(t)), 'order of the handlers')
			c.state(kind, acts, when, change, md.active.map(a => a.tag))
		}
		c.outcome([md.active.map(a => a.tag)])
	}
}

// A handler that throws: the change stands, and the subscriptions are as before.
const throwing = {
	name: 'a handler throws',
	run(c) {
		const kind = c.pick('kind', KINDS)
		const n = 1 + c.choose('handlers', 3)
		const bad = c.choose('throwing', n)
		const drop = c.choose('unsubscribes before throwing', 2)
		const m = c.load()
		const s = make(kind, m)
		let on = true
		const calls = []
		const disposers = []
		for (let i = 0; i < n; i++)
			disposers.push(
				s.sub(v => {
					calls.push([i, v.v])
					if (i === bad && on) {
						if (drop) disposers[i]()
						throw new Error('handler')
					}
				})
			)
		c.step(`handler ${bad} of ${n} throws`)
		c.attempt(() => s.set(d => void (d.v = 1)))
		c.eq(s.get(), { v: 1 }, 'value after a handler threw')
		c.ok(calls.filter(x => x[0] === bad).length === 1, 'the throwing handler is called once')
		for (let i = 0; i < bad; i++) c.ok(calls.filter(x => x[0] === i).length === 1, `handler ${i} is called once`)
		on = false
		calls.length = 0
		c.step('next change')
		s.set(d => void (d.v = 2))
		c.eq(s.get(), { v: 2 }, 'value')
		const exp = Array.from({ length: n }, (_, i) => [i, 2]).filter(x => !(drop && x[0] === bad))
		c.eq(calls, exp, 'handlers told of the next change')
		c.state(kind, n, bad, drop)
		c.outcome(calls)
	}
}

// A great number of handlers: unsubscribing any of them changes nothing for the others.
const many = {
	name: 'many handlers',
	run(c) {
		const kind = c.pick('kind', KINDS)
		const n = c.pick('handlers', [4, 8, 9, 10, 11, 16, 17, 33, 101])
		const picks = [...new Set([0, 1, n >> 1, n - 2, n - 1])]
		const first = picks[c.choose('first', picks.length)]
		const then = picks[c.choose('second', picks.length)]
		const again = c.choose('subscribing the first again', 2)
		const m = c.load()
		const s = make(kind, m)
		const calls = []
		const handlers = Array.from({ length: n }, (_, i) => () => calls.push(i))
		const offs = handlers.map(h => s.sub(h))
		let active = handlers.map((_, i) => i)
		let v = 0
		const change = what => {
			s.set(d => void (d.v = ++v))
			c.eq(calls.splice(0), active, `handlers told of ${what}`)
			c.eq(s.get(), { v }, 'value')
		}
		const drop = i => {
			c.step(`unsubscribe ${i} of ${n}`)
			offs[i]()
			active = active.filter(x => x !== i)
		}
		drop(first)
		change('the first change')
		drop(then)
		change('the second change')
		if (again) {
			c.step(`subscribe ${first} again`)
			const stale = offs[first]
			offs[first] = s.sub(handlers[first])
			active.push(first)
			change('the change after subscribing again')
			stale()
			change('the change after the stale function is called')
		}
		drop(then)
		change('the change after unsubscribing again')
		for (const i of handlers.keys()) drop(i)
		change('the last change')
		c.state(kind, n, first, then, again)
	}
}

// Many subscribers, of which every second, third, ... one leaves, and comes back.
const crowd = {
	name: 'many subscribers',
	run(c) {
		const n = c.pick('subscribers', counts(c))
		const every = c.pick('every', [2, 3, 7, n])
		const order = c.pick('order', Object.keys(ORDERS))
		const back = c.bool('back')
		const m = c.load()
		const s = m.states.createStore(0)
		const calls = []
		const hs = Array.from({ length: n }, (_, i) => v => calls.push([i, v]))
		const offs = hs.map(h => s.onChange(h))
		c.step(`${n} subscribers, every ${every}th leaves, ${order}`)
		let expected = hs.map((_, i) => i)
		for (const i of ORDERS[order](n)) if (i % every === 0) {
			offs[i]()
			expected = expected.filter(x => x !== i)
		}
		s.set(1)
		c.eq(calls.splice(0), expected.map(i => [i, 1]), 'calls')
		if (back) {
			s.onChange(hs[0])
			expected.push(0)
		}
		for (const off of offs) off()
		s.set(2)
		c.eq(calls.splice(0), back ? [[0, 2]] : [], 'calls after everybody has left')
		c.is(s.get(), 2, 'value')
		c.state(n, every, order, back)
	}
}

export default {
	property: 'C02',
	entries,
	scenarios: [outside, alternating, inside, throwing, many, crowd],
	assumptions: [
		'whether a handler subscribed during a change is told of that same change is not specified (at most once is checked)',
		'which handlers after a throwing one are told of that change is not specified'
	]
}
