// C13: the first contribution for an id wins, and duplicates are reported.
import { counts, name } from './_large.mjs'
import { sparse } from '../lib/explore.mjs'
import { same, show } from '../lib/values.mjs'
import { entries, ERROR, makeApp, WARN } from './_commands.mjs'

const IDS = ['a', 'a.b', '', 'constructor', 'toString', '__proto__', 'hasOwnProperty', '0', ' a', 'A', 'a.']

/** The registry under test: commands or key bindings, pre-filled or not. */
const KINDS = {
	commands: {
		option: 'contributions',
		get: app => app.commands.contributions,
		level: ERROR,
		make: (id, n) => [{ id }, { id, title: `t${n}`, description: 'd' }, { id, category: 'c', icon: { light: 'l', dark: `d${n}` }, commandPalette: false }, { id, key: 'k' }][n % 4]
	},
	'key bindings': {
		option: 'keyBindingContributions',
		get: app => app.keyboard.keyBindingContributions,
		level: WARN,
		make: (id, n) => [{ id, key: `ctrl+${n}` }, { id, mac: `cmd+${n}` }, { id, key: 'k', mac: `m${n}` }, { id }][n % 4]
	}
}

function reference() {
	const kept = new Map()
	return {
		kept,
		/** @returns ids of the ignored ones */
		add(list) {
			const ignored = []
			let added = 0
			for (const x of list) {
				if (kept.has(x.id)) ignored.push(x.id)
				else {
					kept.set(x.id, x)
					added++
				}
			}
			return { ignored, added }
		}
	}
}

function compare(c, R, kept, copies, what) {
	c.eq(new Set(Reflect.ownKeys(R.get())), new Set(kept.keys()), `${what}: ids`)
	for (const [id, x] of kept) {
		c.eq(R.get()[id], x, `${what}: contribution ${show(id)}`)
		c.ok(same(x, copies.get(x)), 'the contribution given is unchanged')
	}
	c.eq(R.size(), kept.size, `${what}: size`)
	for (const id of IDS) c.is(R.has(id), kept.has(id), `${what}: has(${show(id)})`)
}

function reported(c, logs, ignored, level, what) {
	c.eq(logs.map(l => l.level), ignored.map(() => level), `${what}: reports of ${ignored.length} duplicates`)
	ignored.forEach((id, i) => c.ok(logs[i].text.includes(id), `${what}: the report names ${show(id)}`))
}

const lists = (ids, max) => {
	let out = [[]]
	let level = [[]]
	for (let i = 0; i < max; i++) {
		level = level.flatMap(l => ids.map(id => [...l, id]))
		out = out.concat(level)
	}
	return out
}

function scenario(name, cfg) {
	return {
		name,
		async: true,
		depth: cfg.depth,
		async run(c) {
			const kind = c.pick('kind', Object.keys(KINDS))
			const K = KINDS[kind]
			const ids = cfg.ids(c)
			const L = cfg.lists(ids, c.tier)
			const P = cfg.prefilled(ids, c.tier)
			const m = c.load()
			let n = cfg.forms ? c.choose('form of the first', 4) : 0
			const copies = new Map()
			const mk = id => {
				const x = K.make(id, n++)
				copies.set(x, structuredClone(x))
				return x
			}
			const pre = c.pick('pre-filled', P).map(mk)
			const ref = reference()
			const first = ref.add(pre)
			const list = pre.slice()
			const a = await makeApp(m, { [K.option]: pre.length ? pre : undefined })
			c.eq(pre, list, 'the list given')
			const logs = a.takeLogs()
			const R = K.get(a.app)
			c.note(`${kind}, pre-filled ${show(pre)}`)
			reported(c, logs, first.ignored, K.level, 'pre-filled')
			compare(c, R, ref.kept, copies, 'pre-filled')
			const told = []
			R.onChange((v, p) => told.push([v, p]))
			let removedOnce = false
			for (let i = 0; i < c.depth; i++) {
				const k = c.choose('op', L.length + (cfg.removal ? 3 : 0))
				const before = R.get()
				if (k < L.length || k === L.length + 2) {
					// the very objects given before can be added again
					const list = k < L.length ? L[k].map(mk) : [...copies.keys()]
					c.step(`add(${list.map(x => show(x)).join(', ')})`)
					const { ignored, added } = ref.add(list)
					R.add(...list)
					reported(c, a.takeLogs(), ignored, K.level, 'add')
					c.eq(told.length, added ? 1 : 0, 'changes told')
					if (added) {
						c.is(told[0][0], R.get(), 'content told')
						c.is(told[0][1], before, 'previous content told')
					} else c.is(R.get(), before, 'content')
				} else if (k === L.length) {
					c.step(`remove ${show(ids[0])}`)
					R.set(r => {
						if (Object.prototype.hasOwnProperty.call(r, ids[0])) delete r[ids[0]]
					})
					removedOnce = true
					ref.kept.delete(ids[0])
				} else {
					c.step('reset()')
					R.reset()
					ref.kept.clear()
					ref.add(pre)
				}
				told.length = 0
				if (c.look(i)) compare(c, R, ref.kept, copies, 'content')
				c.eq(a.takeLogs(), [], 'logged otherwise')
				c.state(kind, pre.map(x => x.id), [...ref.kept.values()])
			}
			// the other registry is untouched
			const other = kind === 'commands' ? KINDS['key bindings'] : KINDS.commands
			c.eq(other.get(a.app).size(), 0, 'the other registry')
			c.outcome([kind, [...ref.kept.keys()], removedOnce])
		}
	}
}

const wide = scenario('every id', {
	forms: true,
	depth: { quick: 2, thorough: 2 },
	ids: () => IDS,
	lists: (ids, tier) => lists(ids, tier === 'thorough' ? 2 : 1).filter(l => l.length),
	prefilled: ids => [[], ...ids.map(i => [i]), ['constructor', '__proto__']]
})
const deep = scenario('histories', {
	depth: { quick: 3, thorough: 4 },
	removal: true,
	ids: c => c.pick('ids', [['a', 'b'], ['constructor', '__proto__']]),
	lists: ids => lists(ids, 2),
	prefilled: ids => [[], [ids[1]], [ids[0], ids[1]]]
})
const inOneCall = scenario('within one call', {
	forms: true,
	depth: { quick: 1, thorough: 2 },
	ids: c => c.pick('ids', [['a', 'b', ''], ['toString', '__proto__', '0'], ['b', 'a', 'c']]),
	lists: (ids, tier) => lists(ids, 4),
	prefilled: ids => [[], [ids[0], ids[0]], [ids[0], ids[1], ids[0]], [ids[0], ids[1], ids[1], ids[1]]]
})

// Through commands which are connected.
const connected = {
	name: 'contributions of connected commands',
	async: true,
	async run(c) {
		const n = 1 + c.choose('commands', 3)
		const list = []
		for (let i = 0; i < n; i++) list.push({ id: c.pick('id', ['a', 'b']), key: c.bool('key') ? `ctrl+${i}` : undefined, title: `t${i}` })
		const pre = c.pick('pre-filled', [undefined, 'contribution', 'key binding', 'both'])
		const m = c.load()
		const preC = { id: 'a', title: 'pre' }
		const preK = { id: 'a', key: 'pre' }
		const a = await makeApp(m, {
			...(pre === 'contribution' || pre === 'both' ? { contributions: [preC] } : {}),
			...(pre === 'key binding' || pre === 'both' ? { keyBindingContributions: [preK] } : {})
		})
		a.takeLogs()
		const cs = new Map(a.app.commands.contributions.has('a') ? [['a', preC]] : [])
		const ks = new Map(a.app.keyboard.keyBindingContributions.has('a') ? [['a', preK]] : [])
		c.is(cs.size, pre === 'contribution' || pre === 'both' ? 1 : 0, 'pre-filled')
		c.is(ks.size, pre === 'key binding' || pre === 'both' ? 1 : 0, 'pre-filled keys')
		for (const info of list) {
			c.step(`connect ${show(info)}`)
			m.commands.command(info, () => {}).connect(a.app)
			const exp = []
			if (cs.has(info.id)) exp.push(ERROR)
			else cs.set(info.id, info)
			if (info.key) {
				if (ks.has(info.id)) exp.push(WARN)
				else ks.set(info.id, info)
			}
			c.eq(a.takeLogs().map(l => l.level).filter(l => l <= WARN).sort(), exp.sort(), 'logged')
			for (const id of ['a', 'b']) {
				c.eq(a.app.commands.contributions.get()[id], cs.get(id), `contribution ${id}`)
				c.eq(a.app.keyboard.keyBindingContributions.get()[id], ks.get(id), `key binding ${id}`)
			}
			c.state(list, pre, [...cs.keys()], [...ks.keys()])
		}
		c.outcome([[...cs.values()].map(x => x.title), [...ks.values()].map(x => x.key)])
	}
}

// Many contributions, with long ids, added in one call or one by one.
const large = {
	name: 'many contributions',
	async: true,
	async run(c) {
		const kind = c.pick('kind', Object.keys(KINDS))
		const K = KINDS[kind]
		const n = c.pick('contributions', counts(c))
		const how = c.pick('added', ['pre-filled', 'in one call', 'one by one'])
		const length = c.pick('length of the ids', [1, 60, 3000])
		const m = c.load()
		const list = Array.from({ length: n }, (_, i) => K.make(name(length, `c${i}`), i))
		// every fifth id is contributed again, at the end
		const dups = list.filter((_, i) => i % 5 === 0).map((x, i) => K.make(x.id, i + 1))
		const all = [...list, ...dups]
		const a = await makeApp(m, { [K.option]: how === 'pre-filled' ? all : undefined })
		const R = K.get(a.app)
		let logs = a.takeLogs()
		if (how !== 'pre-filled') {
			if (how === 'in one call') R.add(...all)
			else for (const x of all) R.add(x)
			logs = a.takeLogs()
		}
		c.step(`${n} ${kind}, ${how}`)
		c.is(R.size(), n, 'number of contributions')
		for (const x of list) c.eq(R.get()[x.id], x, 'contribution')
		reported(c, logs, dups.map(x => x.id), K.level, how)
		c.state(kind, n, how, length)
	}
}

export default {
	property: 'C13',
	entries,
	scenarios: [wide, deep, sparse(deep, { quick: 3, thorough: 4 }), inOneCall, connected, large],
	assumptions: ['contributions added by replacing the whole content (set) are outside: only the adding rule and the options are considered']
}
