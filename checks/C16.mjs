// C16: browser preferences persist, per app name, and touch nothing else in the storage.
import { counts, lengths, name, text } from './_large.mjs'
import { sparse } from '../lib/explore.mjs'
import { createStorage } from '../lib/env.mjs'
import { show } from '../lib/values.mjs'
import { entries, HOSTILE_KEYS, makePrefs, operations, OPS, ROUTES, route, TEXTS } from './_prefs.mjs'

// Entries of the storage which belong to nobody here: their names resemble those of apps called n, a or ''.
const FOREIGN = { other: 'raw', n: 'raw', 'nn:k': 'bm4=', ' n:k': 'x', 'N:k': 'y', 'n.k': '', 'n;k': 'z', 'x:n:k': 'w', '@just-web/browser-i18n/n/language': 'fr', nk: '', 'an:k': 'q' }

function foreign(c, local, model) {
	for (const [k, v] of Object.entries(model)) c.is(local.ctl.map.has(k) ? local.ctl.map.get(k) : undefined, v, `foreign entry ${show(k)} of the storage`)
}
/** Everything in the storage is foreign, or under the name of an app. */
function placed(c, local, model, names) {
	for (const k of local.ctl.map.keys())
		c.ok(Object.prototype.hasOwnProperty.call(model, k) || names.some(n => k.startsWith(`${n}:`)), () => `unexpected entry ${show(k)} in the storage`)
}
const count = (local, model) => [...local.ctl.map.keys()].filter(k => !Object.prototype.hasOwnProperty.call(model, k)).length

function readAll(c, app, M, keys, what) {
	for (const k of keys) {
		c.is(app.preferences.get(k), M.get(k), `${what}: get(${show(k)})`)
		c.is(app.preferences.get(k, 'default'), M.has(k) ? M.get(k) : 'default', `${what}: get(${show(k)}, 'default')`)
	}
}
function apply(c, r, o, k, M) {
	const seen = []
	const expSeen = []
	o.do(r, k, seen)
	o.ref(M, k, expSeen)
	c.eq(seen, expSeen, `value given to the updater of ${show(k)}`)
}

const wide = {
	name: 'every key and value',
	async: true,
	async run(c) {
		const k = c.pick('key', HOSTILE_KEYS)
		const v = c.pick('value', TEXTS)
		const how = c.pick('through', c.tier === 'thorough' ? ROUTES : ['app'])
		const kind = c.pick('storage', ['page', 'given'])
		const then = c.pick('then', [...OPS, 'clear'])
		const local = createStorage({ ...FOREIGN })
		const given = createStorage({ ...FOREIGN })
		const m = c.load({ local })
		const used = kind === 'page' ? local : given
		const opts = { name: 'n', storage: kind === 'page' ? undefined : given.storage }
		const app = await makePrefs(m, 'browser', opts)
		const M = new Map()
		const ops = operations(m)
		readAll(c, app, M, HOSTILE_KEYS, 'at first')
		c.step(`${show(k)} = ${show(v)} through ${how}, storage ${kind}`)
		apply(c, route(m, app, how), ops.to(v), k, M)
		readAll(c, app, M, HOSTILE_KEYS, 'after set')
		c.eq(count(used, FOREIGN), 1, 'entries in the storage')
		// another app of the name, on a new page, and one of another name
		const m2 = c.load({ local })
		const again = await makePrefs(m2, 'browser', opts)
		readAll(c, again, M, HOSTILE_KEYS, 'after a restart')
		const other = await makePrefs(m2, 'browser', { ...opts, name: 'nn' })
		readAll(c, other, new Map([['k', 'nn']]), ['k', ...HOSTILE_KEYS], 'app of another name')
		c.step(then)
		if (then === 'clear') {
			again.preferences.clearAll()
			M.clear()
		} else apply(c, { ...again.preferences }, ops[then], k, M)
		readAll(c, again, M, HOSTILE_KEYS, `after ${then}`)
		readAll(c, app, M, HOSTILE_KEYS, `after ${then}, first app`)
		c.eq(count(used, FOREIGN), M.size, 'entries in the storage')
		foreign(c, local, FOREIGN)
		foreign(c, given, FOREIGN)
		placed(c, used, FOREIGN, ['n'])
		if (kind === 'given') c.eq(local.ctl.ops.filter(o => o[0] !== 'getItem' && o[0] !== 'length'), [], 'changes of the storage of the page')
		c.state(k, v, kind, then)
		c.outcome([...M])
	}
}

const NAMES = [['n', 'nn'], ['n', 'm'], ['constructor', 'toString'], ['', 'x'], ['my app', 'MY app'], ['my app', 'my'], ['n', 'n '], ['é', 'e'], [' n', 'n'], ['A', 'a']]
const histories = {
	name: 'apps of two names, restarts',
	async: true,
	depth: { quick: 4, thorough: 5 },
	async run(c) {
		const names = c.pick('names', c.depth < (c.tier === 'thorough' ? 5 : 4) ? NAMES : NAMES.slice(0, 4))
		const initial = Object.fromEntries(Object.entries(FOREIGN).filter(([k]) => !names.some(n => k.startsWith(`${n}:`))))
		const local = createStorage({ ...initial })
		let m = c.load({ local })
		const apps = [await makePrefs(m, 'browser', { name: names[0] }), await makePrefs(m, 'browser', { name: names[1] })]
		const Ms = [new Map(), new Map()]
		const keys = ['k', '__proto__', names[1]]
		c.note(show(names))
		for (let i = 0; i < c.depth; i++) {
			const a = c.choose('app', 2)
			const op = c.pick('op', ['set', 'set other', 'append', 'remove', 'clear', 'restart'])
			c.step(`${op} by ${show(names[a])}`)
			const ops = operations(m)
			const r = apps[a].preferences
			if (op === 'set') apply(c, r, ops.to(`v${i}`), 'k', Ms[a])
			else if (op === 'set other') apply(c, r, ops.to('é'), '__proto__', Ms[a])
			else if (op === 'append') apply(c, r, ops.append, 'k', Ms[a])
			else if (op === 'remove') apply(c, r, ops[i % 2 ? 'fn undefined' : 'set undefined'], 'k', Ms[a])
			else if (op === 'clear') {
				r.clearAll()
				Ms[a].clear()
			} else {
				// a new page, and the first app created on it is not always the same
				m = c.load({ local })
				for (const j of [a, 1 - a]) apps[j] = await makePrefs(m, 'browser', { name: names[j] })
			}
			if (c.look(i)) for (const j of [0, 1]) readAll(c, apps[j], Ms[j], keys, `app ${show(names[j])}`)
			foreign(c, local, initial)
			placed(c, local, initial, names)
			c.eq(count(local, initial), Ms[0].size + Ms[1].size, 'entries in the storage')
			c.state(names, Ms.map(M => [...M].sort()))
		}
		c.outcome(Ms.map(M => [...M].sort()))
	}
}

// Many preferences among many other entries, in the storage of the page or a double of one.
const many = {
	name: 'many entries, storages of every kind',
	async: true,
	async run(c) {
		const kind = c.pick('storage', ['page', 'given', 'double', 'a Storage without named properties'])
		const own = c.pick('own entries', [0, 1, 2, 11, 60, 300, 1100])
		const others = c.pick('other entries', [0, 1, 25, 150, 600])
		const order = c.pick('order', ['own first', 'others first', 'mixed'])
		const local = createStorage()
		const m = c.load({ local })
		const proxied = createStorage().storage
		const storage = {
			page: undefined,
			given: proxied,
			double: m.browserT.stubStorage(),
			'a Storage without named properties': {
				get length() {
					return proxied.length
				},
				key: i => proxied.key(i),
				getItem: k => proxied.getItem(k),
				setItem: (k, v) => proxied.setItem(k, v),
				removeItem: k => proxied.removeItem(k),
				clear: () => proxied.clear()
			}
		}[kind]
		const used = storage ?? local.storage
		const app = await makePrefs(m, 'browser', { name: 'n', storage })
		const model = new Map()
		const put = {
			own: i => app.preferences.set(`k${i}`, `v${i}`),
			other: i => {
				// the empty text is a key as well
				const k = i === 3 ? '' : i % 2 ? `f${i}` : `nn:k${i}`
				model.set(k, `${i}`)
				used.setItem(k, `${i}`)
			}
		}
		c.step(`${own} preferences and ${others} others, ${order}, ${kind}`)
		for (let i = 0; i < Math.max(own, others); i++) {
			const a = order !== 'others first'
			if (order === 'mixed') {
				if (i < own) put.own(i)
				if (i < others) put.other(i)
			} else if (i < (a ? own : others)) put[a ? 'own' : 'other'](i)
		}
		if (order === 'own first') for (let i = 0; i < others; i++) put.other(i)
		if (order === 'others first') for (let i = 0; i < own; i++) put.own(i)
		c.is(used.length, own + others, 'entries')
		for (let i = 0; i < own; i++) c.is(app.preferences.get(`k${i}`), `v${i}`, `get(k${i})`)
		app.preferences.clearAll()
		for (let i = 0; i < own; i++) c.is(app.preferences.get(`k${i}`), undefined, `get(k${i}) once cleared`)
		c.is(used.length, others, 'entries left')
		for (const [k, v] of model) c.is(used.getItem(k), v, `the other entry ${k}`)
		app.preferences.set('k0', 'again')
		c.is(app.preferences.get('k0'), 'again', 'set after clearing')
		c.state(kind, own, others, order)
	}
}

// Clearing removes every preference whatever their number and their place among the other entries.
const clearing = {
	name: 'clearing among other entries',
	async: true,
	async run(c) {
		const layout = []
		const n = 1 + c.choose('entries', c.tier === 'thorough' ? 7 : 6)
		for (let i = 0; i < n; i++) layout.push(c.pick('entry', ['own', 'foreign', 'other app']))
		const local = createStorage()
		const m = c.load({ local })
		const app = await makePrefs(m, 'browser', { name: 'n' })
		const other = await makePrefs(m, 'browser', { name: 'on' })
		const model = {}
		const M = new Map()
		layout.forEach((l, i) => {
			if (l === 'own') app.preferences.set(`k${i}`, `v${i}`)
			else if (l === 'foreign') {
				model[`f${i}`] = `n:${i}`
				local.ctl.map.set(`f${i}`, `n:${i}`)
			} else {
				other.preferences.set(`k${i}`, `o${i}`)
				M.set(`k${i}`, `o${i}`)
			}
		})
		c.step(`clear ${layout.join(' ')}`)
		app.preferences.clearAll()
		readAll(c, app, new Map(), layout.map((_, i) => `k${i}`), 'cleared')
		readAll(c, other, M, layout.map((_, i) => `k${i}`), 'other app')
		foreign(c, local, model)
		c.eq(count(local, model), M.size, 'entries in the storage')
		app.preferences.set('k0', 'again')
		c.is(app.preferences.get('k0'), 'again', 'set after clearing')
		c.state(layout)
		c.outcome([M.size, Object.keys(model).length])
	}
}

// Every text is read back as it was set: every code point, by blocks, and every text of two awkward parts.
const PIECES = ['', 'a', '=', '+', '/', '%', '%41', '"', '\\', '\n', '\r\n', '\u0000', '\u007f', '\u0080', 'ÿ', 'Ā', '߿', 'ࠀ', '\uffff', '\u{10000}', '\u{10ffff}', '😀', 'é', 'e\u0301', 'שלום', 'null', '🇯🇵', '\u2028']
const texts = {
	name: 'every text',
	async: true,
	async run(c) {
		const block = c.choose('block', 64)
		const part = c.choose('part', 17)
		const local = createStorage()
		const m = c.load({ local })
		const app = await makePrefs(m, 'browser', { name: 'n' })
		const check = t => {
			app.preferences.set('k', t)
			if (app.preferences.get('k') !== t) c.fail(`the text ${show(t)} is read back as ${show(app.preferences.get('k'))}`)
		}
		if (part === 16) {
			// pairs of awkward parts
			PIECES.forEach((a, i) => PIECES.forEach((b, j) => (i * PIECES.length + j) % 64 === block && [`${a}${b}`, `${a}${b}${a}`, `${b}x${a}`].forEach(check)))
			check('é'.repeat(block * 97))
			c.step(`pairs, block ${block}`)
		} else {
			// code points: 17 planes of 65536 in all; the first plane completely, others by their first ones
			const base = part * 4096 + block * 64
			c.step(`code points from ${base.toString(16)}`)
			for (let p = base; p < base + 64; p++) {
				if (p < 0xd800 || p > 0xdfff) check(String.fromCodePoint(p))
			}
			if (c.tier === 'thorough' || block < 4) for (let plane = 1; plane < 17; plane++) check(String.fromCodePoint(plane * 65536 + base))
			let all = ''
			for (let p = base; p < base + 64; p++) if (p < 0xd800 || p > 0xdfff) all += String.fromCodePoint(p)
			check(all)
			const again = await makePrefs(c.load({ local }), 'browser', { name: 'n' })
			c.is(again.preferences.get('k'), all, 'text read after a restart')
		}
		c.state(block, part)
	}
}

// App names with a colon: entries of 'a' and 'a:b' cannot be told apart.
const colons = {
	name: 'names with a colon',
	async: true,
	async run(c) {
		const what = c.pick('what', ['plain', 'clear of the longer', 'clear of the shorter', 'reading', 'writing'])
		const m = c.load()
		const short = await makePrefs(m, 'browser', { name: 'a' })
		const long = await makePrefs(m, 'browser', { name: 'a:b' })
		short.preferences.set('k', 's')
		long.preferences.set('k', 'l')
		c.step(what)
		const both = [short.preferences.get('k'), long.preferences.get('k')]
		c.eq(both, ['s', 'l'], 'preferences of the same key')
		switch (what) {
			case 'clear of the longer':
				long.preferences.clearAll()
				c.eq([short.preferences.get('k'), long.preferences.get('k')], ['s', undefined], 'after clearing')
				break
			case 'clear of the shorter':
				short.preferences.clearAll()
				c.eq(short.preferences.get('k'), undefined, 'after clearing')
				c.eq(long.preferences.get('k'), 'l', "preference of 'a:b' after clearing those of 'a'", 'colon-in-app-name:clear')
				break
			case 'reading':
				c.eq(short.preferences.get('b:k'), undefined, "preference 'b:k' of 'a', which only 'a:b' has set (as 'k')", 'colon-in-app-name:read')
				break
			case 'writing':
				short.preferences.set('b:k', 'w')
				c.eq(short.preferences.get('b:k'), 'w', 'after writing')
				c.eq(long.preferences.get('k'), 'l', "preference 'k' of 'a:b' after 'a' has set 'b:k'", 'colon-in-app-name:write')
				break
		}
		c.state(what)
	}
}

// Many preferences, long keys and long texts.
const large = {
	name: 'many preferences, long keys and texts',
	async: true,
	async run(c) {
		const n = c.pick('preferences', counts(c))
		const keyLength = c.pick('length of the keys', [1, 60, 3000])
		const length = c.pick('length of the texts', lengths(c))
		if (n * length > 4e6) return
		const m = c.load()
		const app = await makePrefs(m, 'browser')
		const p = app.preferences
		const key = i => name(keyLength, `k${i}`)
		const value = i => text(length, `${i}`)
		c.step(`${n} preferences`)
		for (let i = 0; i < n; i++) p.set(key(i), value(i))
		for (let i = 0; i < n; i++) c.is(p.get(key(i)), value(i), `preference ${i}`)
		for (let i = 0; i < n; i += 3) p.set(key(i), undefined)
		for (let i = 1; i < n; i += 3) p.set(key(i), v => `${v}+`)
		for (let i = 0; i < n; i++) c.is(p.get(key(i)), [undefined, `${value(i)}+`, value(i)][i % 3], `preference ${i} later`)
		for (let i = 0; i < n; i++) p.set(key(2), `${i}`)
		c.is(p.get(key(2)), `${n - 1}`, 'preference set many times')
		p.clearAll()
		for (let i = 0; i < n; i++) c.is(p.get(key(i), 'd'), 'd', `preference ${i} after clearing`)
		c.state(n, keyLength, length)
	}
}

export default {
	property: 'C16',
	entries,
	scenarios: [wide, histories, sparse(histories, { quick: 3, thorough: 4 }), clearing, many, texts, colons, large],
	assumptions: ['texts without lone surrogates', 'app names with a colon are considered by the known finding only']
}
