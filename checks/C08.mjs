// C08: an app is assembled in the order declared, completely or not at all.
import { show } from '../lib/values.mjs'

const entries = {
	app: ['@just-web/app', 'justApp', 'define', 'createMemoryLogReporter', 'incubate', 'logLevels'],
	appT: ['@just-web/app/testing', 'justTestApp'],
	log: ['@just-web/log', 'logGizmoFn'],
	id: ['@just-web/id', 'idGizmoFn']
}

// What a gizmo does. waits: how many times it waits (each settled by the scheduler); fails: at which wait (or 'now').
const GIZMOS = {
	now: {},
	'now, promised': { promised: true },
	later: { waits: 1 },
	'later twice': { waits: 2 },
	pair: { pair: true },
	'pair, start later': { pair: true, start: 1 },
	'later, pair, start later': { waits: 1, pair: true, start: 1 },
	'pair without start': { pair: true, noStart: true },
	throws: { fails: 'now' },
	'rejects later': { waits: 1, fails: 'wait' },
	'start throws': { pair: true, fails: 'start' },
	'start rejects later': { pair: true, start: 1, fails: 'start' }
}
const STARTS = {
	none: undefined,
	now: { waits: 0 },
	later: { waits: 1 },
	throws: { waits: 0, fails: true },
	'rejects later': { waits: 1, fails: true }
}

/** One app being created under control. */
function driver(c, m, tag, spec) {
	const d = { tag, events: [], pending: [], settledCount: 0, out: undefined }
	const wait = what =>
		new Promise((resolve, reject) => {
			d.pending.push({ what, resolve, reject })
		})
	const err = at => (d.errors[at] ??= new Error(`${tag} ${at}`))
	d.errors = {}
	const sees = ctx =>
		Object.fromEntries(
			Object.keys(ctx)
				.filter(k => /^(g\d+|shared|merged|name)$/.test(k))
				.sort()
				.map(k => [k, ctx[k]])
		)
	const gizmos = spec.gizmos.map((kind, i) => {
		const g = GIZMOS[kind]
		const value = { [`g${i}`]: `${tag}${i}`, shared: i }
		return m.app.define({
			create(ctx) {
				d.events.push(`create ${i} ${show(sees(ctx))}${ctx.id === undefined || ctx.log === undefined ? ' without id or log' : ''}`)
				d.ctxId ??= ctx.id
				c.is(ctx.id, d.ctxId, 'id seen by a gizmo')
				if (g.fails === 'now') throw err(i)
				const finish = () => {
					d.events.push(`created ${i}`)
					if (!g.pair) return value
					if (g.noStart) return [value, undefined]
					return [
						value,
						async () => {
							d.events.push(`start ${i}`)
							if (g.start) await wait(`start ${i}`)
							if (g.fails === 'start') throw err(i)
							d.events.push(`started ${i}`)
						}
					]
				}
				if (!g.waits && !g.promised) return finish()
				return (async () => {
					for (let k = 0; k < (g.waits ?? 0); k++) await wait(`gizmo ${i}.${k}`)
					if (g.fails === 'wait') throw err(i)
					return finish()
				})()
			}
		})
	})
	const logs = m.app.createMemoryLogReporter({ id: `mem-${tag}` })
	const base =
		spec.base === 'justApp'
			? m.app.justApp({ name: tag, log: { reporters: [logs] } })
			: m.appT.justTestApp({ name: tag, log: { reporters: [logs] } })
	let b = base
	gizmos.forEach((g, i) => {
		b = b.with(g)
		if (spec.merge === i) b = b.merge({ merged: i, shared: `merged ${i}` })
	})
	const st = STARTS[spec.start]
	const start =
		st &&
		(async app => {
			d.startApp = app
			d.events.push(`start ${show(sees(app))}`)
			if (st.waits) await wait('start')
			if (st.fails) throw err('start')
			d.events.push('start done')
		})
	d.entries = () => logs.logs.map(l => l.args.join(' '))
	d.create = () => {
		d.p = start ? b.create(start) : b.create()
		d.p.then(
			app => (d.out = { app }),
			e => (d.out = { e })
		)
	}
	d.settle = () => {
		const w = d.pending.shift()
		d.settledCount++
		w.resolve()
		return w.what
	}
	d.expect = () => reference(spec, tag, d.settledCount)
	d.builder = b
	d.start = start
	return d
}

/** What must have happened after `budget` waits were settled. */
function reference(spec, tag, budget) {
	const events = []
	const seen = { name: tag }
	const status = { events }
	const spend = () => {
		if (budget > 0) {
			budget--
			return true
		}
		status.waiting = true
		return false
	}
	const sorted = () => show(Object.fromEntries(Object.keys(seen).sort().map(k => [k, seen[k]])))
	for (let i = 0; i < spec.gizmos.length; i++) {
		const g = GIZMOS[spec.gizmos[i]]
		events.push(`create ${i} ${sorted()}`)
		if (g.fails === 'now') return { ...status, failed: i }
		for (let k = 0; k < (g.waits ?? 0); k++) if (!spend()) return status
		if (g.fails === 'wait') return { ...status, failed: i }
		events.push(`created ${i}`)
		if (g.pair && !g.noStart) {
			events.push(`start ${i}`)
			if (g.start && !spend()) return status
			if (g.fails === 'start') return { ...status, failed: i }
			events.push(`started ${i}`)
		}
		seen[`g${i}`] = `${tag}${i}`
		seen.shared = i
		if (spec.merge === i) {
			seen.merged = i
			seen.shared = `merged ${i}`
		}
	}
	const st = STARTS[spec.start]
	if (st) {
		events.push(`start ${sorted()}`)
		if (st.waits && !spend()) return status
		if (st.fails) return { ...status, failed: 'start' }
		events.push('start done')
	}
	return { ...status, done: true, seen: { ...seen } }
}

function compare(c, d) {
	const x = d.expect()
	c.eq(d.events, x.events, `what happened to ${d.tag}`)
	c.eq(d.pending.length, x.waiting ? 1 : 0, `number of things ${d.tag} waits for`)
	const created = d.entries().filter(l => l.startsWith('created'))
	if (x.done) {
		c.ok(d.out && 'app' in d.out, () => `${d.tag} is created, got ${show(d.out)}`)
		const { app } = d.out
		for (const k of Object.keys(x.seen)) c.is(app[k], x.seen[k], `${k} of ${d.tag}`)
		c.is(app.name, d.tag, 'name')
		if (d.ctxId) c.is(app.id, d.ctxId, 'id')
		if (d.start) {
			c.ok(d.startApp, 'the start function got the app')
			for (const k of Object.keys(app)) c.is(d.startApp[k], app[k], `${k} of the app given to the start function`)
		}
		c.eq(created, [`created (id: ${app.id})`], `creation logged by ${d.tag}`)
	} else {
		c.eq(created, [], `creation logged by ${d.tag}, which is not created`)
		if (x.failed !== undefined) {
			c.ok(d.out && 'e' in d.out, () => `creating ${d.tag} fails, got ${show(d.out)}`)
			c.is(d.out.e, d.errors[x.failed], `error of ${d.tag}`)
		} else c.is(d.out, undefined, `outcome of ${d.tag} before it is complete`)
	}
	return x
}

const single = {
	name: 'one app',
	async: true,
	async run(c) {
		const base = c.pick('base', ['justApp', 'justTestApp'])
		const kinds = Object.keys(GIZMOS)
		const n = c.choose('gizmos', c.tier === 'thorough' ? 4 : 3) // quick: up to 2 and, below, some of 3
		const gizmos = Array.from({ length: n }, () => c.pick('gizmo', kinds))
		const start = c.pick('start', Object.keys(STARTS))
		const merge = n ? c.choose('merge', n + 1) - 1 : -1
		const m = c.load()
		const d = driver(c, m, 'x', { base, gizmos, start, merge })
		c.step(`create ${base} with ${gizmos.join(' | ')}; start ${start}; merge ${merge}`)
		d.create()
		for (;;) {
			await c.drain()
			const x = compare(c, d)
			c.state(base, d.events, !!d.out)
			if (!x.waiting) break
			c.step(`${d.settle()} settles`)
		}
		c.outcome([gizmos, start, show(d.out && ('app' in d.out ? 'app' : d.out))])
	}
}

const three = {
	name: 'one app, three gizmos',
	async: true,
	async run(c) {
		const kinds = ['now', 'later', 'pair, start later', 'throws', 'start rejects later']
		const gizmos = Array.from({ length: 3 }, () => c.pick('gizmo', kinds))
		const start = c.pick('start', Object.keys(STARTS))
		const m = c.load()
		const d = driver(c, m, 'x', { base: 'justApp', gizmos, start, merge: 1 })
		c.step(`create with ${gizmos.join(' | ')}; start ${start}`)
		d.create()
		for (;;) {
			await c.drain()
			const x = compare(c, d)
			c.state(d.events, !!d.out)
			if (!x.waiting) break
			c.step(`${d.settle()} settles`)
		}
		c.outcome([gizmos, start, !!d.out?.app])
	}
}

const concurrent = {
	name: 'two apps at once',
	async: true,
	async run(c) {
		const kinds = c.tier === 'thorough' ? ['now', 'later', 'pair, start later', 'rejects later', 'throws', 'later twice'] : ['now', 'later', 'pair, start later', 'rejects later']
		const starts = c.tier === 'thorough' ? ['none', 'later', 'rejects later'] : ['none', 'later']
		const mk = () => ({ base: c.pick('base', ['justApp', 'justTestApp']), gizmos: [c.pick('gizmo', kinds), c.pick('gizmo', kinds)], start: c.pick('start', starts), merge: -1 })
		const specs = [mk(), mk()]
		const m = c.load()
		const ds = [driver(c, m, 'x', specs[0]), driver(c, m, 'y', specs[1])]
		const started = [true, false]
		c.step(`create x with ${specs[0].gizmos.join(' | ')}, ${specs[0].start}`)
		ds[0].create()
		for (;;) {
			await c.drain()
			ds.forEach((d, i) => {
				if (started[i]) compare(c, d)
				else c.eq([d.events, d.entries()], [[], []], 'nothing happens before create()')
			})
			c.state(specs, ds.map(d => [d.events.length, !!d.out]))
			const menu = []
			if (!started[1]) menu.push('create y')
			ds.forEach(d => d.pending.length && menu.push(d))
			if (!menu.length) break
			const x = menu[c.choose('next', menu.length)]
			if (x === 'create y') {
				c.step(`create y with ${specs[1].gizmos.join(' | ')}, ${specs[1].start}`)
				started[1] = true
				ds[1].create()
			} else c.step(`${x.tag}: ${x.settle()} settles`)
		}
		if (ds.every(d => d.out?.app)) c.ok(ds[0].out.app.id !== ds[1].out.app.id, 'ids of the two apps differ')
		c.outcome([specs, ds.map(d => !!d.out?.app)])
	}
}

// The same declaration created again gives another complete app, whatever became of the first: `n` creations are
// begun and settled in every order, with the log of the app as declared or replaced by a gizmo.
const again = {
	name: 'created again from one declaration',
	async: true,
	async run(c) {
		const base = c.pick('base', ['justApp', 'justTestApp'])
		const replaced = c.pick('log', ['as declared', 'without info', 'one of each app'])
		const n = c.tier === 'thorough' ? 3 : 2
		const withStart = c.bool('start')
		const fails = Array.from({ length: n }, (_, i) => c.tier === 'thorough' || i === 0 ? c.pick('fails', [false, 'gizmo', ...(withStart ? ['start'] : [])]) : false)
		const m = c.load()
		const logs = m.app.createMemoryLogReporter({ id: 'mem' })
		const own = []
		let made = 0
		const waiting = new Map()
		const wait = (k, what) => new Promise((resolve, reject) => waiting.set(k, { what, resolve, reject }))
		const g = m.app.define({
			async create(ctx) {
				const k = made++
				await wait(k, 'gizmo')
				return { made: k, idSeen: ctx.id, ...(replaced === 'without info' ? { log: { k } } : replaced === 'one of each app' ? { log: { info: (...args) => void own.push([k, args.join(' ')]) } } : {}) }
			}
		})
		const log = { reporters: [logs] }
		const b = (base === 'justApp' ? m.app.justApp({ name: 'n', log }) : m.appT.justTestApp({ name: 'n', log })).with(g)
		const outs = []
		const starts = []
		const expect = [] // outcome of each creation begun: undefined, 'app' or an error
		const errors = {}
		const begin = i => {
			const p = withStart ? b.create(async app => { starts[i] = app; await wait(i, 'start') }) : b.create()
			p.then(app => (outs[i] = { app }), e => (outs[i] = { e }))
		}
		let begun = 0
		const order = []
		const logOrder = () => {
			const lines = replaced === 'one of each app' ? own.map(l => l[1]) : logs.logs.map(l => l.args.join(' '))
			const at = i => lines.indexOf(`created (id: ${outs[i].app.id})`)
			return [...order].sort((i, j) => at(i) - at(j))
		}
		c.step(`${base}, log ${replaced}${withStart ? ', with a start function' : ''}, failing ${show(fails)}`)
		for (;;) {
			const menu = begun < n ? ['begin'] : []
			for (let i = 0; i < begun; i++) if (waiting.has(i)) menu.push(i)
			if (!menu.length) break
			const ready = menu.filter(x => x !== 'begin')
			if (ready.length > 1) menu.push([...ready], [...ready].reverse()) // without a pause in between
			const x = menu[c.choose('next', menu.length)]
			if (x === 'begin') {
				c.step('begin')
				begin(begun++)
			} else for (const next of [x].flat()) {
				const w = waiting.get(next)
				waiting.delete(next)
				c.step(`${w.what} of ${next} ${fails[next] === w.what ? 'fails' : 'settles'}`)
				if (fails[next] === w.what) {
					expect[next] = errors[next] = new Error(`${w.what} ${next}`)
					w.reject(errors[next])
				} else {
					w.resolve()
					if (w.what === 'start' || !withStart) {
						expect[next] = 'app'
						order.push(next)
					}
				}
			}
			await c.drain()
			for (let i = 0; i < begun; i++) {
				if (expect[i] === undefined) c.is(outs[i], undefined, `outcome of creation ${i} before it is complete`)
				else if (expect[i] === 'app') {
					const app = outs[i]?.app
					c.ok(app, () => `creation ${i} succeeds, got ${show(outs[i])}`)
					c.eq([app.made, app.idSeen, app.name], [i, app.id, 'n'], `app ${i}`)
				} else c.is(outs[i]?.e, errors[i], `error of creation ${i}`)
				if (starts[i]) {
					c.is(starts[i].made, i, `app given to the start function of creation ${i}`)
					if (outs[i]?.app) for (const k of Object.keys(outs[i].app)) c.is(starts[i][k], outs[i].app[k], `${k} of the app given to start function ${i}`)
				}
			}
			// in what order creations settled together are logged is left open
			if (Array.isArray(x)) order.splice(0, order.length, ...logOrder())
			const apps = order.map(i => outs[i].app)
			c.is(new Set(apps.map(a => a.id)).size, apps.length, 'ids of the apps')
			c.is(new Set(apps).size, apps.length, 'apps')
			const created = logs.logs.map(l => l.args.join(' ')).filter(l => l.startsWith('created'))
			const lines = apps.map(a => `created (id: ${a.id})`)
			c.eq(created, replaced === 'one of each app' ? [] : lines, 'creations logged')
			c.eq(own, replaced === 'one of each app' ? order.map((i, j) => [i, lines[j]]) : [], "creations logged by the apps' own logs")
			c.state(base, replaced, withStart, fails, begun, order, [...waiting.keys()])
		}
		c.is(begun, n, 'creations begun')
		c.is(outs.filter(Boolean).length, n, 'creations complete')
		c.outcome([order, fails])
	}
}

// Gizmos overriding what justApp provides itself, the log among them.
const overriding = {
	name: 'overriding id, name and log',
	async: true,
	async run(c) {
		const base = c.pick('base', ['justApp', 'justTestApp'])
		const what = c.pick('override', ['nothing', 'name', 'log without info', 'log removed', 'log with own info', 'another log gizmo'])
		const second = c.bool('followed by another gizmo')
		const level = c.pick('verbosity', [undefined, 'none', 'warn', 'info', 'all'])
		const m = c.load()
		const logs = m.app.createMemoryLogReporter({ id: 'mem' })
		const other = m.app.createMemoryLogReporter({ id: 'other' })
		const own = []
		const over = {
			nothing: {},
			name: { name: 'changed' },
			'log without info': { log: { other: 1 } },
			'log removed': { log: undefined },
			'log with own info': { log: { info: (...args) => void own.push(args.join(' ')) } }
		}
		const log = { reporters: [logs], ...(level && { logLevel: m.app.logLevels[level] }) }
		let b = base === 'justApp' ? m.app.justApp({ name: 'n', log }) : m.appT.justTestApp({ name: 'n', log })
		let given
		let seen
		b = b.with(what === 'another log gizmo' ? m.log.logGizmoFn({ reporters: [other] }) : m.app.define({ async create() { return (given = over[what]) } }))
		if (second) b = b.with(m.app.define({ async create(ctx) { seen = { ...ctx }; return { s: 1 } } }))
		c.step(`${base}, override ${what}`)
		const app = await b.create()
		const created = `created (id: ${app.id})`
		const at = {
			mem: logs.logs.filter(l => l.args.join(' ').startsWith('created')).map(l => l.args.join(' ')),
			other: other.logs.map(l => l.args.join(' ')),
			own
		}
		const where = what === 'log with own info' ? 'own' : what === 'another log gizmo' ? 'other' : 'mem'
		const silent = where === 'mem' && (level === 'none' || level === 'warn')
		for (const k of Object.keys(at)) c.eq(at[k], k === where && !silent ? [created] : [], `creation logged at ${k}`)
		if (given) for (const k of Object.keys(given)) c.is(app[k], given[k], `${k} of the app`)
		if (seen) {
			c.is(seen.id, app.id, 'id seen')
			c.is(seen.log, app.log, 'log seen')
			c.is(seen.name, app.name, 'name seen')
		}
		c.is(app.name, what === 'name' ? 'changed' : 'n', 'name')
		c.state(base, what, second, level)
		c.outcome(at)
	}
}

// Many gizmos, and many apps of one builder.
const large = {
	name: 'many gizmos',
	async: true,
	async run(c) {
		const base = c.pick('base', ['justApp', 'justTestApp'])
		const n = c.pick('gizmos', c.tier === 'thorough' ? [9, 17, 33, 65, 130, 300] : [12, 40, 130])
		const kinds = c.pick('kinds', [['now'], ['later'], ['pair, start later'], ['now', 'later twice', 'pair', 'pair without start'], ['later, pair, start later', 'now, promised']])
		const last = c.pick('last', ['now', 'throws', 'rejects later', 'start throws', 'start rejects later'])
		const start = c.pick('start', ['none', 'later', 'throws'])
		const times = c.pick('times', [1, 20])
		if (times > 1 && (n > 12 || kinds.length > 1)) return
		if (!c.mine()) return
		const m = c.load()
		const spec = { base, gizmos: Array.from({ length: n }, (_, i) => (i === n - 1 ? last : kinds[i % kinds.length])), start }
		c.step(`${n} gizmos, ${kinds}, ${last}, start ${start}`)
		for (let t = 0; t < times; t++) {
			const d = driver(c, m, `t${t}`, spec)
			d.create()
			for (let k = 0; ; k++) {
				await c.drain()
				if (k % 16 === 0 || !d.pending.length) compare(c, d)
				if (!d.pending.length) break
				d.settle()
			}
		}
		c.state(base, n, kinds, last, start)
		c.outcome([n, last, start])
	}
}

export default {
	property: 'C08',
	entries,
	scenarios: [single, three, concurrent, again, overriding, large],
	assumptions: [
		'a gizmo or start function which never settles is not considered (the app is then never complete)',
		'the cleanup functions returned by two-phase gizmos belong to @unional/gizmo'
	]
}
