// C09: every app instance has its own name and a 15 character id.
import { show } from '../lib/values.mjs'

const entries = {
	app: ['@just-web/app', 'justApp', 'define', 'createMemoryLogReporter', 'incubate'],
	appT: ['@just-web/app/testing', 'justTestApp', 'idTestGizmoFn'],
	id: ['@just-web/id', 'idGizmoFn']
}

const lcg = seed => () => {
	// 52 random bits: generic numbers, with long expansions
	seed = (seed * 1664525 + 1013904223) % 4294967296
	const hi = seed
	seed = (seed * 1664525 + 1013904223) % 4294967296
	return (hi * 1048576 + (seed % 1048576)) / 4503599627370496
}

// Numbers of [0, 1) with every kind of expansion in base 36: none, 1 to 12 digits, leading zeros, all digits equal.
const NUMBERS = [0, 5e-324, Number.MIN_VALUE * 4, 2 ** -1022, 2 ** -53, 2 ** -52, 2 ** -30, 1e-10, 1e-7, 1e-3]
for (let k = 1; k <= 11; k++) NUMBERS.push(36 ** -k, 1 - 36 ** -k, 1 - 2 ** -(4 * k + 9))
NUMBERS.push(0.5, 0.25, 0.75, 1 / 3, 1 / 6, 1 / 12, 10 / 36, 35 / 36, 9 / 36, 1 / 35, 0.1, 0.2, 0.3, 0.123456789, 0.999999999, Math.SQRT1_2, Math.E - 2, Math.PI - 3, 10 / 35, 1 / 7, 2 / 3)
for (let k = 2; k <= 10; k++) NUMBERS.push(Math.floor(36 ** k * 0.7) / 36 ** k)
for (let i = NUMBERS.length; i--; ) if (NUMBERS[i] >= 1) NUMBERS.splice(i, 1) // rounded to 1, which is never drawn

/** The numbers given first, then generic ones. */
const source = (first, seed = 7) => {
	const rest = lcg(seed)
	let i = 0
	return () => (i < first.length ? first[i++] : rest())
}
const ID = /^[a-z0-9]{15}$/

const NAMES = ['n', '', ' ', 'my app', 'a:b', 'Ünï', 'constructor', 'toString', '__proto__', 'x'.repeat(300), '0', '@scope/name', '<b>', 'null', 'A', '\n', '15charactername']
const BUILDS = ['idGizmoFn', 'idTestGizmoFn', 'justApp', 'justTestApp', 'justApp with gizmos']

function build(m, how, name, gizmo) {
	const log = { reporters: [m.app.createMemoryLogReporter({ id: 'mem' })] }
	switch (how) {
		case 'idGizmoFn':
			return m.app.incubate().with(m.id.idGizmoFn({ name }))
		case 'idTestGizmoFn':
			return m.app.incubate().with(name === undefined ? m.appT.idTestGizmoFn() : m.appT.idTestGizmoFn({ name }))
		case 'justApp':
			return m.app.justApp({ name, log })
		case 'justTestApp':
			return name === undefined ? m.appT.justTestApp() : m.appT.justTestApp({ name, log })
		case 'justApp with gizmos':
			return m.app.justApp({ name, log }).with(gizmo).with(m.app.define({ create: async ctx => ({ last: ctx.id }) }))
	}
}

const pairs = {
	name: 'every pair of random numbers',
	async: true,
	async run(c) {
		const a = c.pick('first number', NUMBERS)
		const b = c.pick('second number', NUMBERS)
		const how = c.pick('build', c.tier === 'thorough' ? BUILDS : ['idGizmoFn'])
		const m = c.load({ random: source([a, b]) })
		let seen
		const app = await build(m, how, 'n', m.app.define({ create: async ctx => ((seen = ctx.id), { first: ctx.id }) })).create()
		c.step(`${how}, random ${a}, ${b}`)
		c.ok(typeof app.id === 'string' && ID.test(app.id), () => `id ${show(app.id)} of the random numbers ${a} and ${b}`)
		if (how === 'justApp with gizmos') c.eq([seen, app.first, app.last], [app.id, app.id, app.id], 'id seen by gizmos')
		c.state(a, b, how, app.id)
	}
}

const triples = {
	name: 'triples of short expansions',
	async: true,
	async run(c) {
		const few = [0, 0.5, 1 / 36, 35 / 36, 5e-324, 1 / 1296, 0.25, 1 - 2 ** -53]
		const list = [c.pick('1', few), c.pick('2', few), c.pick('3', few)]
		const how = c.pick('build', ['idGizmoFn', 'justTestApp'])
		const m = c.load({ random: source(list) })
		const ids = []
		for (let i = 0; i < 2; i++) {
			const app = await build(m, how, 'n').create()
			ids.push(app.id)
			c.ok(ID.test(app.id), () => `id ${show(app.id)} of the random numbers ${list}`)
		}
		c.step(`${how}, random ${list}`)
		c.state(list, how, ids)
	}
}

const names = {
	name: 'names',
	async: true,
	async run(c) {
		const how = c.pick('build', BUILDS)
		const list = ['idTestGizmoFn', 'justTestApp'].includes(how) ? [undefined, ...NAMES] : NAMES
		const n1 = c.pick('name', list)
		const n2 = c.pick('other name', list)
		const m = c.load({ random: source([]) })
		const options = { name: n1 }
		let during
		const g = m.app.define({ create: async ctx => ((during = ctx.name), {}) })
		const b1 = build(m, how, n1, g)
		const b2 = build(m, how, n2)
		const [x, y] = await Promise.all([b1.create(), how === 'justApp with gizmos' ? build(m, 'justApp', n2).create() : b2.create()])
		c.step(`${how} ${show(n1)} and ${show(n2)}`)
		c.is(x.name, n1 ?? 'test', 'name')
		c.is(y.name, n2 ?? 'test', 'name of the other')
		if (how === 'justApp with gizmos') c.is(during, n1, 'name seen by a gizmo')
		c.ok(x.id !== y.id && ID.test(x.id) && ID.test(y.id), 'ids')
		c.eq(options, { name: n1 }, 'options given')
		c.state(how, n1, n2)
	}
}

// Options which say more than asked for, such as another app given as the options.
const more = {
	name: 'options which carry more',
	async: true,
	async run(c) {
		const how = c.pick('build', BUILDS)
		const extra = c.pick('extra', ['id', 'another app', 'a frozen object', 'accessors'])
		const m = c.load({ random: source([]) })
		const log = { reporters: [m.app.createMemoryLogReporter({ id: 'mem' })] }
		const other = await m.app.justApp({ name: 'n', log }).create()
		const options = {
			id: { id: 'x', name: 'n', log },
			'another app': Object.assign({ ...other }, { log }),
			'a frozen object': Object.freeze({ name: 'n', log: Object.freeze({ reporters: Object.freeze([...log.reporters]) }) }),
			accessors: { get name() { return 'n' }, get log() { return log }, get id() { return 'y' } }
		}[extra]
		const ids = [other.id]
		for (let i = 0; i < 2; i++) {
			const b = {
				idGizmoFn: () => m.app.incubate().with(m.id.idGizmoFn(options)),
				idTestGizmoFn: () => m.app.incubate().with(m.appT.idTestGizmoFn(options)),
				justApp: () => m.app.justApp(options),
				justTestApp: () => m.appT.justTestApp(options),
				'justApp with gizmos': () => m.app.justApp(options).with(m.app.define({ create: async ctx => ({ last: ctx.id }) }))
			}[how]()
			const app = await b.create()
			c.step(`${how} of ${extra}, ${i}`)
			c.is(app.name, 'n', 'name')
			c.ok(ID.test(app.id) && !ids.includes(app.id), () => `id ${show(app.id)}, ids before ${show(ids)}`)
			ids.push(app.id)
			c.state(how, extra, i)
		}
	}
}

// Up to four creations, of one or two declarations, begun and completed in every order.
const interleaved = {
	name: 'interleaved creations',
	async: true,
	depth: { quick: 7, thorough: 9 },
	async run(c) {
		const how = c.pick('declarations', ['one', 'two of the same name', 'two of different names'])
		const kind = c.pick('kind', ['justApp', 'justTestApp', 'idGizmoFn'])
		const m = c.load({ random: source([]) })
		const waits = []
		const g = m.app.define({
			async create(ctx) {
				const at = ctx.id
				c.ok(ID.test(at), `id ${show(at)} seen by a gizmo`)
				await new Promise(r => waits.push(r))
				return { seen: at, seenLater: ctx.id }
			}
		})
		const mk = name => build(m, kind, name).with(g)
		const one = mk('n')
		const bs = how === 'one' ? [one, one] : [one, mk(how === 'two of the same name' ? 'n' : 'o')]
		const apps = []
		const pending = []
		let begun = 0
		const check = () => {
			const done = apps.filter(Boolean)
			done.forEach(a => {
				c.ok(ID.test(a.id), `id ${show(a.id)}`)
				c.eq([a.seen, a.seenLater, a.kept], [a.id, a.id, a.id], 'id, all along')
			})
			c.eq(new Set(done.map(a => a.id)).size, done.length, 'number of different ids')
		}
		for (let i = 0; i < c.depth; i++) {
			const menu = []
			if (begun < 4) menu.push(['begin', 0], ['begin', 1])
			pending.forEach((p, k) => menu.push(['settle', k]))
			if (!menu.length) break
			const [op, k] = menu[c.choose('op', menu.length)]
			if (op === 'begin') {
				const n = begun++
				c.step(`begin ${n} of declaration ${k}`)
				bs[k].create().then(a => {
					apps[n] = a
					a.kept = a.id
				})
				await c.drain()
				c.eq(waits.length, 1, 'creation has begun')
				pending.push(waits.shift())
			} else {
				c.step('settle')
				pending.splice(k, 1)[0]()
				await c.drain()
			}
			check()
			c.state(how, kind, begun, pending.length, apps.map(Boolean))
		}
		c.outcome([begun, apps.filter(Boolean).length])
	}
}

const crowd = {
	name: 'many apps',
	async: true,
	async run(c) {
		const how = c.pick('build', BUILDS)
		const n = c.pick('apps', c.tier === 'thorough' ? [9, 17, 33, 65, 130, 300, 1100] : [12, 40, 130, 300])
		const what = c.pick('names', ['different', 'the same', 'long'])
		const together = c.bool('created together')
		const again = c.bool('of one builder')
		if (!c.mine()) return
		const m = c.load({ random: source([]) })
		const nameOf = i => (what === 'the same' || again ? 'n' : what === 'long' ? `${'long '.repeat(i * 20)}${i}` : `n${i}`)
		const g = m.app.define({ create: async ctx => ({ first: [ctx.name, ctx.id] }) })
		const one = again ? build(m, how, 'n', g) : undefined
		const create = i => (one ?? build(m, how, nameOf(i), g)).create()
		c.step(`${n} apps of ${how}, names ${what}`)
		const list = Array.from({ length: n }, (_, i) => i)
		const apps = []
		if (together) apps.push(...(await Promise.all(list.map(create))))
		else for (const i of list) apps.push(await create(i))
		apps.forEach((a, i) => {
			c.is(a.name, nameOf(i), `name of app ${i}`)
			c.ok(ID.test(a.id), () => `id ${show(a.id)} of app ${i}`)
			if (how === 'justApp with gizmos') c.eq(a.first, [nameOf(i), a.id], `name and id seen by a gizmo of app ${i}`)
		})
		// the ids of a builder used again may differ or not: that is up to the gizmo library
		if (!again) c.is(new Set(apps.map(a => a.id)).size, n, 'different ids')
		c.state(how, n, what, together, again)
		c.outcome([how, n])
	}
}

export default {
	property: 'C09',
	entries,
	scenarios: [pairs, triples, names, more, interleaved, crowd],
	assumptions: ['the random source gives numbers of [0, 1), generic ones after the first two or three; distinct ids are checked for generic random numbers']
}
