// C11: invoking a command runs exactly its latest handler, with its arguments.
import { counts, name } from './_large.mjs'
import { sparse } from '../lib/explore.mjs'
import { show } from '../lib/values.mjs'
import { entries, ERROR, makeApp, NOTICE } from './_commands.mjs'

const HOSTILE = ['a', 'a.b', '', 'constructor', 'toString', 'hasOwnProperty', 'valueOf', '__proto__', 'isPrototypeOf', '0', 'length', 'just-web.showCommandPalette', 'é', ' ']
const OBJ = { o: 1 }
const ARGS = [[], [[]], [undefined], [1, 'two', OBJ], [[1, 2]], [null], [() => 1, false, 0, ''], Array.from({ length: 40 }, (_, i) => i), [1, undefined, undefined]]
const error = new Error('handler')
const promise = Promise.resolve(1)
const RESULTS = { falsy: 0, object: OBJ, promise, null: null, false: false, empty: '', NaN: NaN, array: [1], thenable: { then: () => {} }, error }
const KINDS = ['nothing', 'throws', 'throws falsy', ...Object.keys(RESULTS)]

function detached({ register, invoke, keys, has }) {
	return { register: (...a) => register(...a), invoke: (...a) => invoke(...a), keys: () => keys(), has: id => has(id) }
}

function world(c, m, { app, takeLogs }) {
	// in the histories seldom looked at: its functions by themselves
	const H = c.looks === undefined ? app.commands.handlers : detached(app.commands.handlers)
	const model = new Map()
	const calls = []
	let n = 0
	function handler(kind, then) {
		const tag = `h${n++}`
		const body = args => {
			calls.push({ tag, args })
			then?.()
			switch (kind) {
				case 'throws':
					throw error
				case 'throws falsy':
					throw undefined
				default:
					return RESULTS[kind]
			}
		}
		// handlers can have optional parameters, which their `length` tells nothing about
		const f = n % 2 ? (...args) => body(args) : function (a, b = 1) { return body([...arguments]) }
		return Object.assign(f, { tag, kind })
	}
	const W = {
		H,
		model,
		calls,
		handler,
		register(id, h) {
			const had = model.has(id)
			c.is(H.register(id, h), undefined, 'result of register()')
			model.set(id, h)
			const logs = takeLogs()
			c.eq(logs.filter(l => l.level < NOTICE), [], 'problems logged by register()')
			c.eq(logs.length, had ? 1 : 0, `notices logged when registering ${show(id)}`)
			if (had) c.ok(logs[0].text.includes(id), 'the notice names the command')
			c.eq(calls, [], 'handlers called by register()')
		},
		invoke(id, args) {
			const h = model.get(id)
			const r = c.attempt(() => H.invoke(id, ...args))
			const logs = takeLogs()
			if (!h) {
				c.eq(r, { threw: false, value: undefined }, `invoking ${show(id)}, which is not registered`)
				c.eq(calls, [], 'handlers called')
				c.eq(logs.map(l => l.level), [ERROR], `logged when invoking ${show(id)}, which is not registered`)
				c.ok(logs[0].text.includes(id), 'the error names the command')
				return
			}
			c.eq(calls.map(x => x.tag), [h.tag], `handlers called for ${show(id)}`)
			const got = calls.splice(0)[0].args
			c.eq(got.length, args.length, 'number of arguments')
			args.forEach((a, i) => c.is(got[i], a, `argument ${i}`))
			const threw = h.kind === 'throws' || h.kind === 'throws falsy'
			c.is(r.threw, threw, `invoking ${show(id)} throws`)
			if (threw) c.is(r.error, h.kind === 'throws' ? error : undefined, 'error')
			else c.is(r.value, RESULTS[h.kind], 'result')
			return logs
		},
		listed(ids) {
			const keys = H.keys()
			c.eq(keys.length, model.size, 'number of ids listed')
			c.eq(new Set(keys), new Set(model.keys()), 'ids listed')
			for (const id of ids) c.is(H.has(id), model.has(id), `has(${show(id)})`)
		}
	}
	return W
}

const prefill = (c, m, ids) => {
	// handlers given as options
	const made = {}
	for (const id of ids) Object.defineProperty(made, id, { value: undefined, writable: true, enumerable: true, configurable: true })
	return made
}

const single = {
	name: 'every id, handler and arguments',
	async: true,
	async run(c) {
		const id = c.pick('id', HOSTILE)
		const how = c.pick('registered', ['never', 'pre-filled', 'later', 'pre-filled and later', 'twice', 'same handler twice'])
		const kind = c.pick('handler', KINDS)
		const args = c.pick('arguments', ARGS)
		const keyboard = c.bool('keyboard')
		const m = c.load()
		const calls = []
		let W
		const pre = how.startsWith('pre-filled')
		const optionHandlers = prefill(c, m, pre ? [id, 'other'] : [])
		// a handler needs the world: made through a forwarding function
		const holder = {}
		if (pre) {
			optionHandlers[id === '__proto__' ? 'x' : id] = (...a) => holder.h(...a)
			if (id === '__proto__') {
				delete optionHandlers.x
				Object.defineProperty(optionHandlers, '__proto__', { value: (...a) => holder.h(...a), enumerable: true })
			}
			optionHandlers.other = (...a) => holder.o(...a)
		}
		const a = await makeApp(m, { keyboard, ...(pre && { handlers: optionHandlers }) })
		a.takeLogs()
		W = world(c, m, a)
		c.step(`${show(id)} registered ${how}, handler gives ${kind}`)
		if (pre) {
			holder.h = W.handler(kind)
			holder.o = W.handler('falsy')
			W.model.set(id, holder.h)
			W.model.set('other', holder.o)
		}
		W.listed(HOSTILE)
		W.invoke(id, args)
		if (how === 'later' || how === 'pre-filled and later') W.register(id, W.handler(kind))
		if (how === 'twice') {
			W.register(id, W.handler('object'))
			W.register(id, W.handler(kind))
		}
		if (how === 'same handler twice') {
			const h = W.handler(kind)
			W.register(id, h)
			W.register(id, h)
		}
		W.listed(HOSTILE)
		c.eq(W.invoke(id, args) ?? [], [], 'logged by an invocation')
		// every other id is as it was
		for (const other of HOSTILE) if (other !== id) W.invoke(other, args)
		if (pre) c.eq(W.invoke('other', args) ?? [], [], 'logged by an invocation')
		W.listed(HOSTILE)
		c.state(id, how, kind, args.length, keyboard)
		c.outcome([id, how, kind])
		void calls
	}
}

const histories = {
	name: 'histories',
	async: true,
	depth: { quick: 4, thorough: 5 },
	async run(c) {
		const m = c.load()
		const a = await makeApp(m)
		a.takeLogs()
		const W = world(c, m, a)
		const ids = c.pick('ids', [['a', 'b'], ['constructor', 'a.b'], ['__proto__', '']])
		for (let i = 0; i < c.depth; i++) {
			const id = c.pick('id', ids)
			const op = c.pick('op', ['register', 'register throwing', 'register again', 'invoke', 'invoke with arguments'])
			c.step(`${op} ${show(id)}`)
			if (op === 'register') W.register(id, W.handler('object'))
			else if (op === 'register throwing') W.register(id, W.handler('throws'))
			else if (op === 'register again') {
				// the handler of the other id
				const h = W.model.get(ids[1 - ids.indexOf(id)])
				if (h) W.register(id, h)
			} else W.invoke(id, op === 'invoke' ? [] : [i, OBJ])
			if (c.look(i)) W.listed(ids)
			c.state(ids, [...W.model].map(([k, h]) => [k, h.kind]))
		}
		for (const id of ids) W.invoke(id, ['end'])
		c.outcome([...W.model].map(([k, h]) => [k, h.kind]))
	}
}

// Handlers which, while running, register or invoke others.
const nested = {
	name: 'handlers acting while invoked',
	async: true,
	async run(c) {
		const act = c.pick('the handler', ['replaces itself', 'replaces the other', 'registers a new one', 'invokes the other', 'invokes itself replaced', 'invokes a missing one'])
		const kind = c.pick('and gives', KINDS)
		const rounds = 1 + c.choose('rounds', 3)
		const m = c.load()
		const { app, takeLogs } = await makeApp(m)
		takeLogs()
		const H = app.commands.handlers
		const calls = []
		const result = RESULTS[kind]
		const rec = tag => (...args) => void calls.push([tag, args])
		let inner
		const act1 = {
			'replaces itself': () => H.register('a', rec('a2')),
			'replaces the other': () => H.register('b', rec('b2')),
			'registers a new one': () => H.register('n', rec('n')),
			'invokes the other': () => (inner = H.invoke('b', 'inner')),
			'invokes itself replaced': () => {
				H.register('a', rec('a2'))
				H.invoke('a', 'inner')
			},
			'invokes a missing one': () => (inner = H.invoke('missing'))
		}[act]
		H.register('a', (...args) => {
			calls.push(['a', args])
			act1()
			if (kind === 'throws') throw error
			if (kind === 'throws falsy') throw undefined
			return result
		})
		H.register('b', rec('b'))
		c.step(`${act}, gives ${kind}, ${rounds} rounds`)
		for (let i = 0; i < rounds; i++) {
			const replaced = i > 0 && (act === 'replaces itself' || act === 'invokes itself replaced')
			calls.length = 0
			takeLogs()
			const r = c.attempt(() => H.invoke('a', i))
			const exp = replaced ? [['a2', [i]]] : [['a', [i]]]
			if (!replaced && act === 'invokes the other') exp.push(['b', ['inner']])
			if (!replaced && act === 'invokes itself replaced') exp.push(['a2', ['inner']])
			c.eq(calls, exp, 'handlers called')
			if (replaced) c.eq(r, { threw: false, value: undefined }, 'result of the replacement')
			else {
				c.is(r.threw, kind.startsWith('throws'), 'throws')
				if (r.threw) c.is(r.error, kind === 'throws' ? error : undefined, 'error')
				else c.is(r.value, result, 'result')
			}
			const logs = takeLogs()
			const levels = logs.map(l => l.level)
			if (act === 'invokes a missing one') c.eq(levels, [ERROR], 'logged')
			else if (replaced || act === 'invokes the other' || (act === 'registers a new one' && i === 0)) c.eq(levels, [], 'logged')
			else c.eq(levels, [NOTICE], 'logged')
			c.state(act, kind, i)
		}
		calls.length = 0
		H.invoke('b', 'after')
		c.eq(calls, [[act === 'replaces the other' ? 'b2' : 'b', ['after']]], 'the other command')
		c.eq(new Set(H.keys()), new Set(act === 'registers a new one' ? ['a', 'b', 'n'] : ['a', 'b']), 'ids listed')
		c.is(inner, undefined, 'inner result')
		c.outcome([act, kind, rounds])
	}
}

// Handlers invoked while they are running: by themselves, or by one another.
const recursive = {
	name: 'handlers invoking themselves and one another',
	async: true,
	depth: { quick: 5, thorough: 7 },
	async run(c) {
		const shared = c.bool('one handler for both ids')
		// what each of the invocations does, outermost first: 0 returns, 1 throws, otherwise invokes a or b
		const plan = []
		for (let i = 0; i < c.depth; i++) {
			const k = c.choose(`invocation ${i}`, i === c.depth - 1 ? 2 : 4)
			plan.push(k)
			if (k < 2) break
		}
		const caught = c.bool('errors are caught')
		if (!c.mine()) return
		const { app, takeLogs } = await makeApp(c.load())
		takeLogs()
		const H = app.commands.handlers
		const calls = []
		const make = tag => (...args) => {
			const i = args[0]
			calls.push([tag, args])
			if (plan[i] === 0) return `end ${i}`
			if (plan[i] === 1) throw error
			const id = plan[i] === 2 ? 'a' : 'b'
			let r
			try {
				r = H.invoke(id, i + 1, id)
			} catch (e) {
				if (!caught) throw e
				r = 'caught'
			}
			calls.push([tag, 'back', i, r])
			return [i, r]
		}
		const a = make(shared ? 'ab' : 'a')
		const b = shared ? a : make('b')
		H.register('a', a)
		H.register('b', b)
		for (let round = 0; round < 2; round++) {
			const exp = []
			const expect = (i, id) => {
				const tag = shared ? 'ab' : id
				exp.push([tag, [i, id]])
				if (plan[i] === 0) return { v: `end ${i}` }
				if (plan[i] === 1) return { threw: true }
				let r = expect(i + 1, plan[i] === 2 ? 'a' : 'b')
				if (r.threw) {
					if (!caught) return r
					r = { v: 'caught' }
				}
				exp.push([tag, 'back', i, r.v])
				return { v: [i, r.v] }
			}
			const e = expect(0, 'a')
			calls.length = 0
			c.step(`invoke 'a', plan ${plan}`)
			const r = c.attempt(() => H.invoke('a', 0, 'a'))
			c.eq(calls, exp, 'handlers called')
			c.is(r.threw, !!e.threw, 'throws')
			if (r.threw) c.is(r.error, error, 'error')
			else c.eq(r.value, e.v, 'result')
			c.eq(takeLogs(), [], 'logged')
		}
		c.state(shared, plan, caught)
		c.outcome(plan)
	}
}

// One options record for several apps, which its owner goes on using.
const given = {
	name: 'one record of handlers given to two apps',
	async: true,
	async run(c) {
		const ids = c.pick('ids', [['a', 'b'], ['constructor', '__proto__'], ['toString', '']])
		const before = c.pick('given', [0, 1, 2])
		const m = c.load()
		const record = c.bool('without prototype') ? Object.create(null) : {}
		const put = (k, v) => Object.defineProperty(record, k, { value: v, enumerable: true, configurable: true, writable: true })
		for (let i = 0; i < before; i++) put(ids[i], () => `first ${i}`)
		const proto = Object.getPrototypeOf(record)
		const x = await makeApp(m, { name: 'x', handlers: record })
		c.is(Object.getPrototypeOf(record), proto, 'prototype of the record given')
		// the app registers a handler; then the owner of the record changes it
		x.app.commands.handlers.register('n', () => 'n')
		c.eq(Reflect.ownKeys(record), ids.slice(0, before), 'ids of the record given')
		const change = c.pick('then the record', ['is left', 'gets another handler', 'gets a replacement', 'loses one'])
		const r = c.attempt(() => {
			if (change === 'gets another handler') put('later', () => 'later')
			if (change === 'gets a replacement') put(ids[0], () => 'second')
			if (change === 'loses one') delete record[ids[0]]
		})
		c.ok(!r.threw, () => `the record given can no longer be changed: ${show(r.error)}`)
		c.step(`${show(ids.slice(0, before))} given, ${change}`)
		const y = await makeApp(m, { name: 'y', handlers: record })
		c.eq(new Set(x.app.commands.handlers.keys()), new Set([...ids.slice(0, before), 'n']), 'ids of the first app')
		for (let i = 0; i < before; i++) c.is(x.app.commands.handlers.invoke(ids[i]), `first ${i}`, 'result in the first app')
		c.eq(new Set(y.app.commands.handlers.keys()), new Set(Reflect.ownKeys(record)), 'ids of the second app')
		for (const id of Reflect.ownKeys(record)) c.is(y.app.commands.handlers.invoke(id), record[id](), 'result in the second app')
		c.state(ids, before, change)
		c.outcome([before, change])
	}
}

// Many commands, long ids, many arguments, many invocations.
const large = {
	name: 'many commands',
	async: true,
	async run(c) {
		const n = c.pick('commands', counts(c))
		const pre = c.bool('pre-filled')
		const length = c.pick('length of the ids', [1, 60, 3000])
		const args = Array.from({ length: c.pick('arguments', [0, 65, 500]) }, (_, i) => i)
		const m = c.load()
		const id = i => name(length, `c${i}`)
		const calls = []
		const hs = Array.from({ length: n }, (_, i) => (...a) => (calls.push([i, a]), i))
		const a = await makeApp(m, pre ? { handlers: Object.fromEntries(hs.map((h, i) => [id(i), h])) } : {})
		const H = a.app.commands.handlers
		if (!pre) hs.forEach((h, i) => H.register(id(i), h))
		a.takeLogs()
		c.step(`${n} commands, ids of length ${length}`)
		c.eq(new Set(H.keys()), new Set(hs.map((_, i) => id(i))), 'ids listed')
		c.eq(H.keys().length, n, 'number of ids listed')
		for (let i = 0; i < n; i++) {
			c.is(H.has(id(i)), true, 'has()')
			c.is(H.invoke(id(i), ...args), i, 'result')
			c.eq(calls.splice(0), [[i, args]], 'handlers called')
		}
		const over = () => 'over'
		H.register(id(n - 1), over)
		c.eq(a.takeLogs().map(l => l.level), [NOTICE], 'logged')
		for (let i = 0; i < n; i++) c.is(H.invoke(id(0)), 0, 'result of an invocation')
		c.is(H.invoke(id(n - 1)), 'over', 'result of the handler registered last')
		c.is(H.invoke(id(n)), undefined, 'result of an id which is not registered')
		c.eq(a.takeLogs().map(l => l.level), [ERROR], 'logged')
		c.state(n, pre, length, args.length)
	}
}

export default {
	property: 'C11',
	entries,
	scenarios: [single, histories, sparse(histories, { quick: 4, thorough: 5 }), nested, recursive, given, large],
	assumptions: ['handlers are functions; the text of log messages is checked to contain the quoted id only']
}
