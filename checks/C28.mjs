// C28: the storage test doubles behave as a storage.
import { counts, lengths, name, text } from './_large.mjs'
import { createStorage } from '../lib/env.mjs'
import { sparse } from '../lib/explore.mjs'
import { show } from '../lib/values.mjs'

const entries = {
	browserT: ['@just-web/browser/testing', 'stubStorage', 'stubLocalStorage', 'stubSessionStorage']
}
const KEYS = ['a', '', '__proto__', 'length', 'getItem', '0', 'toString', 'é', 'a b']
const VALUES = ['v', '', 'null', 'undefined', '0', '{"a":1}', ' v\n', 'V', 'a\u0301', '\u0000\ud800']

/** Everything a storage can be asked, against a map from keys to values. */
function compare(c, s, map, keys, order, what) {
	c.is(s.length, map.size, `length ${what}`)
	for (const k of keys) c.is(s.getItem(k), map.has(k) ? map.get(k) : null, `item ${show(k)} ${what}`)
	const got = []
	for (let i = 0; i < map.size; i++) got.push(s.key(i))
	c.eq([...got].sort(), [...map.keys()].sort(), `keys ${what}`)
	for (const i of [map.size, map.size + 1, -1, 1e9, Number.MAX_SAFE_INTEGER]) c.is(s.key(i), null, `key(${i}) ${what}`)
	if (order) c.eq(got, order, `order of the keys ${what}`)
	return got
}

const historiesOf = (name, depth, keys, values) => ({
	name,
	depth,
	run(c) {
		const m = c.load()
		const n = c.choose('storages', 2) + 1
		const ss = Array.from({ length: n }, () => m.browserT.stubStorage())
		const maps = ss.map(() => new Map())
		const ops = [['clear']]
		for (const k of keys) {
			ops.push(['remove', k])
			for (const v of values) ops.push(['set', k, v])
		}
		const orders = ss.map(() => undefined)
		for (let d = 0; d < c.depth; d++) {
			const i = n > 1 ? c.choose('storage', n) : 0
			const [op, k, v] = c.pick('op', ops)
			c.step(`storage ${i}: ${op} ${show(k)} ${show(v)}`)
			const before = maps[i].has(k)
			let r
			if (op === 'set') {
				r = ss[i].setItem(k, v)
				maps[i].set(k, v)
			} else if (op === 'remove') {
				r = ss[i].removeItem(k)
				maps[i].delete(k)
			} else {
				r = ss[i].clear()
				maps[i].clear()
			}
			c.is(r, undefined, `result of ${op}`)
			ss.forEach((s, j) => {
				// the order stays as long as no key is added or removed
				const same = j !== i || (op === 'set' ? before : op === 'remove' ? !before : false)
				if (!same) orders[j] = undefined
				if (!c.look(d)) return
				orders[j] = compare(c, s, maps[j], keys, orders[j], `of storage ${j} after step ${d}`)
				compare(c, s, maps[j], keys, orders[j], `of storage ${j} read again after step ${d}`)
			})
			c.state(maps)
		}
		c.outcome(maps)
	}
})

/** The methods taken off the storage, and the loops applications clean up a storage with. */
const uses = {
	name: 'usual loops',
	run(c) {
		const m = c.load()
		const count = c.choose('items', 5)
		const use = c.pick('use', ['remove all by key(0)', 'remove all backwards', 'copy', 'remove matching collected first', 'read all twice'])
		const s = m.browserT.stubStorage()
		const ref = createStorage().storage
		for (let i = 0; i < count; i++) for (const x of [s, ref]) x.setItem(KEYS[i], VALUES[i % VALUES.length])
		c.step(`${count} items: ${use}`)
		const out = [s, ref].map(x => {
			const r = []
			if (use === 'remove all by key(0)') {
				for (let k = x.key(0), n = 0; k !== null && n < 20; k = x.key(0), n++) x.removeItem(k)
			} else if (use === 'remove all backwards') {
				for (let i = x.length - 1; i >= 0; i--) x.removeItem(x.key(i))
			} else if (use === 'copy') {
				for (let i = 0; i < x.length; i++) r.push([x.key(i), x.getItem(x.key(i))])
			} else if (use === 'remove matching collected first') {
				const ks = []
				for (let i = 0; i < x.length; i++) if (x.key(i).length === 1) ks.push(x.key(i))
				ks.forEach(k => x.removeItem(k))
			} else for (let n = 0; n < 2; n++) for (let i = 0; i < x.length; i++) r.push(x.key(i))
			r.sort()
			return [r, x.length, KEYS.map(k => x.getItem(k))]
		})
		c.eq(out[0], out[1], 'result')
		c.state(count, use)
	}
}

/** Stubs over the storages of the page: any subset of members stubbed. */
const METHODS = ['clear', 'getItem', 'key', 'removeItem', 'setItem']
const which = {
	local: { fn: 'stubLocalStorage', page: 'local', name: 'localStorage' },
	session: { fn: 'stubSessionStorage', page: 'session', name: 'sessionStorage' }
}
const stubs = {
	name: 'stubbed members',
	depth: { quick: 2, thorough: 3 },
	run(c) {
		const kind = c.pick('storage', ['local', 'session'])
		const given = {}
		for (const x of METHODS) given[x] = c.bool(x)
		const length = c.pick('length', ['real', 7])
		const named = c.pick('named', ['none', 'text'])
		if (!c.mine()) return
		const m = c.load()
		const W = which[kind]
		const real = m.env.env[W.name]
		const other = m.env.env[kind === 'local' ? 'sessionStorage' : 'localStorage']
		other.setItem('o', 'other')
		const calls = []
		const stub = {}
		for (const x of METHODS)
			if (given[x])
				stub[x] = (...args) => {
					calls.push([x, args])
					return `${x} stubbed`
				}
		if (length !== 'real') stub.length = length
		if (named === 'text') stub.theme = 'dark'
		const s = m.browserT[W.fn](stub)
		const map = new Map()
		// A method which is not stubbed, called in the only way which works (see the known finding below)
		const call = (x, ...args) => (kind === 'session' && !given[x] ? Reflect.apply(s[x], real, args) : s[x](...args))
		const OPS = [['setItem', 'a', 'v'], ['setItem', 'b', ''], ['removeItem', 'a'], ['clear'], ['getItem', 'a'], ['key', 0]]
		for (let d = 0; d < c.depth; d++) {
			const [x, ...args] = c.pick('op', OPS)
			c.step(`${kind}, stubbed: ${Object.keys(stub)}: ${x}(${args.map(a => show(a)).join(', ')})`)
			calls.length = 0
			const r = call(x, ...args)
			if (given[x]) {
				c.is(r, `${x} stubbed`, `result of the stubbed ${x}()`)
				c.eq(calls, [[x, args]], 'calls of the stubs')
			} else {
				c.eq(calls, [], 'calls of the stubs')
				const want =
					x === 'setItem'
						? void map.set(...args)
						: x === 'removeItem'
							? void map.delete(...args)
							: x === 'clear'
								? void map.clear()
								: x === 'getItem'
									? (map.get(args[0]) ?? null)
									: ([...map.keys()][0] ?? null)
				c.is(r, want, `result of ${x}()`)
			}
			c.eq(W.page === 'local' ? [...m.page.local.ctl.map] : [...m.page.session.ctl.map], [...map], 'content of the storage of the page')
			c.is(s.length, length === 'real' ? map.size : length, 'length')
			c.is(s.theme, named === 'text' ? 'dark' : undefined, 'named member')
			if (!('b' in stub)) c.is(s.b, map.get('b'), 'item read as a member')
			for (const k of ['a', 'b']) if (!given.getItem) c.is(call('getItem', k), map.get(k) ?? null, `item ${k}`)
			c.eq(Object.keys(s).sort(), [...map.keys()].sort(), 'names listed')
			c.state(kind, given, length, named, [...map])
		}
		c.eq([other.length, other.getItem('o')], [1, 'other'], 'the other storage of the page')
		c.outcome([kind, given, [...map]])
	}
}
/** Methods which are not stubbed, called as methods. */
const plain = {
	name: 'members left alone',
	run(c) {
		const kind = c.pick('storage', ['local', 'session'])
		const x = c.pick('method', METHODS)
		const stubbed = c.choose('stubs', 4)
		const m = c.load()
		const W = which[kind]
		const real = m.env.env[W.name]
		real.setItem('a', 'v')
		const stub = {}
		if (stubbed & 1) stub.theme = 'dark'
		if (stubbed & 2) stub[METHODS[(METHODS.indexOf(x) + 1) % METHODS.length]] = () => 'stubbed'
		const s = m.browserT[W.fn](stub)
		c.step(`${kind}: ${x}()`)
		const args = { clear: [], getItem: ['a'], key: [0], removeItem: ['a'], setItem: ['b', 'w'] }[x]
		const r = c.attempt(() => s[x](...args))
		if (r.threw && kind === 'session') c.fail(`${x}() of stubSessionStorage({${Object.keys(stub)}}) failed: ${show(r.error)}`, `session-method-unbound:${x}`)
		c.ok(!r.threw, () => `${x}() failed: ${show(r.error)}`)
		c.is(r.value, x === 'getItem' ? 'v' : x === 'key' ? 'a' : undefined, `result of ${x}()`)
		c.eq([...m.page[W.page].ctl.map], { clear: [], removeItem: [], setItem: [['a', 'v'], ['b', 'w']] }[x] ?? [['a', 'v']], 'content of the storage')
		c.state(kind, x, stubbed)
	}
}
/** Members stubbed with a falsy value are stubbed too. */
const falsy = {
	name: 'falsy members',
	run(c) {
		const kind = c.pick('storage', ['local', 'session'])
		const [p, v] = c.pick('member', [['length', 0], ['theme', ''], ['theme', null], ['theme', 0], ['theme', false]])
		const m = c.load()
		const W = which[kind]
		m.env.env[W.name].setItem('theme', 'real')
		const s = m.browserT[W.fn]({ [p]: v })
		c.step(`${kind}: ${p} stubbed with ${show(v)}`)
		const got = s[p]
		if (!Object.is(got, v)) {
			// the value of the storage of the page is given instead (known); anything else would be something else
			c.is(got, p === 'length' ? 1 : 'real', `stubbed ${p}`)
			c.is(got, v, `stubbed ${p} of ${W.fn}()`, `falsy-stub:${kind}`)
		}
		c.state(kind, p, v)
	}
}

// Many items, long keys and values.
const large = {
	name: 'many items',
	run(c) {
		const n = c.pick('items', counts(c))
		const keyLength = c.pick('length of the keys', [1, 60, 3000])
		const length = c.pick('length of the values', lengths(c))
		if (n * length > 4e6) return
		const m = c.load()
		const s = m.browserT.stubStorage()
		const map = new Map()
		const key = i => name(keyLength, `k${i}`)
		for (let i = 0; i < n; i++) {
			s.setItem(key(i), text(length, `${i}`))
			map.set(key(i), text(length, `${i}`))
		}
		c.step(`${n} items`)
		let order = compare(c, s, map, [...map.keys()], undefined, 'at first')
		order = compare(c, s, map, [...map.keys()], order, 'again')
		for (let i = 0; i < n; i += 3) {
			s.removeItem(key(i))
			map.delete(key(i))
		}
		compare(c, s, map, Array.from({ length: n }, (_, i) => key(i)), undefined, 'after removing every third')
		s.clear()
		compare(c, s, new Map(), [...map.keys()], undefined, 'after clearing')
		c.state(n, keyLength, length)
	}
}

export default {
	property: 'C28',
	entries,
	scenarios: [
		historiesOf('histories', { quick: 4, thorough: 6 }, ['a', '__proto__'], ['v', '']),
		historiesOf('hostile keys', { quick: 3, thorough: 4 }, KEYS, ['v', '']),
		historiesOf('keys which look alike', { quick: 3, thorough: 4 }, ['a', 'A', ' a', 'a ', '\u00e1', 'a\u0301'], ['v']),
		historiesOf('values', { quick: 3, thorough: 4 }, ['a', 'b'], VALUES),
		sparse(historiesOf('three keys', {}, ['c', 'b', 'a'], ['v']), { quick: 4, thorough: 5 }),
		historiesOf('many keys', { quick: 4, thorough: 6 }, ['c', 'b', 'a'], ['v']),
		uses,
		stubs,
		plain,
		falsy,
		large
	],
	assumptions: ['keys and values are strings and indexes are integers, as the types of a storage demand']
}
