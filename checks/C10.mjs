// C10: log entries carry the app's id, obey the level, reach only that app's reporters.
import { show } from '../lib/values.mjs'
import { counts, lengths, name as long, text } from './_large.mjs'

const entries = {
	app: ['@just-web/app', 'justApp', 'define', 'createMemoryLogReporter', 'createPrefixedGetLogger', 'createPrefixedGetNonConsoleLogger', 'logLevels', 'incubate'],
	appT: ['@just-web/app/testing', 'justTestApp', 'logTestGizmoFn'],
	id: ['@just-web/id', 'idGizmoFn'],
	log: ['@just-web/log', 'logGizmoFn']
}

const LEVELS = { emergency: 100, alert: 200, critical: 300, error: 400, warn: 500, notice: 600, info: 700, debug: 800, trace: 900, planck: Infinity }
const CUSTOM = { spicy: 50, quiet: 650, silly: 850, zz: 1, l5: 450, l6: 910, l7: 999, a8: 750 }
const VERBOSITY = [undefined, 0, 50, 100, 300, 400, 500, 650, 700, 800, 850, 900, Infinity]
const METHODS = [...Object.keys(LEVELS), ...Object.keys(CUSTOM), 'on', 'on returning', 'on by name', 'count']
const NAMES = ['n', ' a:b ', 'a:', 'a:b', 'my app', '@s/x', 'n:l', 'constructor']
const IDS = ['l', 'a:b', 'p:q', 'n:l', 'n', 'a:b:c', '@just-web/x', 'toString', '0', 'two words', 'hasOwnProperty', 'name with space ', 'L']
const PREFIXES = ['p', '@just-web/p', 'p:q', 'constructor']
const obj = { a: 1 }
const err = new Error('e')
const ARGS = [[], ['hello'], [undefined], [null, 0, ''], [obj, err, Symbol.iterator], Array.from({ length: 40 }, (_, i) => i)]

/** Every way to obtain a logger: {get(app, m), id} where id is relative to the name of the app. */
function sources(ids, prefixes, prefixed = ids.slice(0, 3)) {
	const out = [{ what: 'app.log', get: a => a.log, id: '' }]
	out.push({ what: 'getLogger()', get: a => a.log.getLogger(), id: '' })
	out.push({ what: "getLogger('')", get: a => a.log.getLogger(''), id: '' })
	for (const i of ids) {
		out.push({ what: `getLogger(${i})`, get: a => a.log.getLogger(i), id: i })
		out.push({ what: `getNonConsoleLogger(nc${i})`, get: a => a.log.getNonConsoleLogger(`nc${i}`), id: `nc${i}`, nonConsole: true })
	}
	for (const p of prefixes) {
		out.push({ what: `prefixed ${p}, empty id`, get: (a, m) => m.app.createPrefixedGetLogger(a, p)(''), id: p })
		for (const i of prefixed) {
			out.push({ what: `prefixed ${p} ${i}`, get: (a, m) => m.app.createPrefixedGetLogger(a, p)(i), id: `${p}:${i}` })
			out.push({ what: `non console prefixed nc${p} ${i}`, get: (a, m) => m.app.createPrefixedGetNonConsoleLogger(a, `nc${p}`)(i), id: `nc${p}:${i}`, nonConsole: true })
		}
		out.push({ what: `non console prefixed nc${p}, empty id`, get: (a, m) => m.app.createPrefixedGetNonConsoleLogger(a, `nc${p}`)(''), id: `nc${p}`, nonConsole: true })
	}
	return out
}

const KINDS = ['justApp', 'justTestApp', 'logGizmoFn', 'logTestGizmoFn']
function create(m, kind, name, log) {
	switch (kind) {
		case 'justApp':
			return m.app.justApp({ name, log }).create()
		case 'justTestApp':
			return m.appT.justTestApp({ name, log }).create()
		case 'logGizmoFn':
			return m.app.incubate().with(m.id.idGizmoFn({ name })).with(m.log.logGizmoFn(log)).create()
		case 'logTestGizmoFn':
			return m.app.incubate().with(m.id.idGizmoFn({ name })).with(m.appT.logTestGizmoFn(log)).create()
	}
}
const isTest = kind => kind.includes('Test')

/** Logs with the method given. @returns the entry expected, or undefined when above the verbosity */
function logWith(c, logger, method, args, verbosity, counts, key) {
	if (method === 'count') {
		c.is(logger.count(...args), undefined, 'result of count()')
		if (800 > verbosity) return
		counts[key] = (counts[key] ?? 0) + 1
		return { level: 800, args: [counts[key], ...args] }
	}
	if (method.startsWith('on')) {
		let told
		const f = (log, level) => {
			told = level
			if (method === 'on returning') return 'returned'
			log(...args)
		}
		logger.on(method === 'on by name' ? 'warn' : 400, f)
		const level = method === 'on by name' ? 500 : 400
		if (level > verbosity) {
			c.is(told, undefined, 'a disabled on() calls its function')
			return
		}
		c.is(told, verbosity, 'level told to the function of on()')
		return { level, args: method === 'on returning' ? ['returned'] : args }
	}
	const level = LEVELS[method] ?? CUSTOM[method]
	logger[method](...args)
	return level > verbosity ? undefined : { level, args }
}

function take(c, r) {
	return r.logs.splice(0).map(e => {
		c.ok(e.timestamp instanceof Date, 'an entry has a timestamp')
		return { id: e.id, level: e.level, args: e.args }
	})
}
function eqEntries(c, got, exp, what) {
	c.eq(got.length, exp.length, `${what}: number of entries ${show(got)}, expected ${show(exp)}`)
	exp.forEach((e, i) => {
		c.is(got[i].id, e.id, `${what}: id`)
		c.is(got[i].level, e.level, `${what}: level`)
		c.is(got[i].args.length, e.args.length, `${what}: number of arguments`)
		e.args.forEach((a, k) => c.is(got[i].args[k], a, `${what}: argument ${k}`))
	})
}

const one = {
	name: 'every source, method and verbosity',
	async: true,
	async run(c) {
		const kind = c.pick('kind', KINDS)
		const logLevel = c.pick('verbosity', VERBOSITY)
		const list = sources(c.tier === 'thorough' ? IDS : IDS.slice(0, 3), c.tier === 'thorough' ? PREFIXES : PREFIXES.slice(0, 2))
		const s = list[c.choose('source', list.length)]
		const name = c.pick('name', c.tier === 'thorough' ? NAMES : NAMES.slice(0, 3))
		const m = c.load()
		const reporters = [m.app.createMemoryLogReporter({ id: 'one' }), m.app.createMemoryLogReporter({ id: 'two' })]
		const verbosity = logLevel ?? (isTest(kind) ? 800 : 700)
		const log = { reporters, customLevels: { ...CUSTOM } }
		if (logLevel !== undefined) log.logLevel = logLevel
		const app = await create(m, kind, name, log)
		c.is(app.log.logLevel, verbosity, 'logLevel of the app')
		if (isTest(kind)) {
			c.ok(app.log.reporter && !reporters.includes(app.log.reporter), 'a test log has its own reporter')
			reporters.push(app.log.reporter)
		}
		reporters.forEach(r => take(c, r)) // the creation
		c.step(`${kind} ${show(name)}, ${s.what}, verbosity ${show(logLevel)}`)
		const id = s.id ? `${name}:${s.id}` : name
		const counts = {}
		const loggers = [s.get(app, m)]
		for (const method of METHODS)
			for (const args of method === 'info' || method === 'count' || c.tier === 'thorough' ? ARGS : ARGS.slice(1, 2)) {
				const l = loggers.length < 2 ? loggers[0] : loggers[1]
				const e = logWith(c, l, method, args, verbosity, counts, 'x')
				for (const r of reporters) eqEntries(c, take(c, r), e ? [{ id, ...e }] : [], `${method}(${show(args)}) at ${r.id}`)
				// the logger asked for again
				if (method === 'warn') loggers.push(s.get(app, m))
			}
		for (const [n, v] of Object.entries({ ...LEVELS, ...CUSTOM })) {
			c.is(app.log.toLogLevel(n), v, `toLogLevel(${n})`)
			c.is(app.log.toLogLevelName(v), n, `toLogLevelName(${v})`)
		}
		c.eq(m.page.console, [], 'written to the console')
		c.state(kind, name, s.what, logLevel)
		c.outcome([id, verbosity])
	}
}

// Every name with every logger id and prefix, in particular the ones which look like one another.
const names = {
	name: 'names, ids and prefixes',
	async: true,
	async run(c) {
		const kind = c.pick('kind', KINDS)
		const name = c.pick('name', [...NAMES, 'l', 'toString', 'N'])
		const ids = [...IDS, name, `${name}:l`, `${name}:${name}`, `${name}x`]
		const list = sources(ids, [...PREFIXES, name, 'l'], ids)
		const s = list[c.choose('source', list.length)]
		const m = c.load()
		const reporters = [m.app.createMemoryLogReporter({ id: 'one' }), m.app.createMemoryLogReporter({ id: 'two' })]
		const app = await create(m, kind, name, { reporters, logLevel: 700 })
		if (isTest(kind)) reporters.push(app.log.reporter)
		reporters.forEach(r => take(c, r)) // the creation
		c.step(`${kind} ${show(name)}, ${s.what}`)
		const id = s.id ? `${name}:${s.id}` : name
		const loggers = [s.get(app, m), s.get(app, m)]
		for (const [i, l] of loggers.entries())
			for (const [method, level] of [['warn', 500], ['info', 700], ['debug', 800]]) {
				l[method](i, obj)
				for (const r of reporters) eqEntries(c, take(c, r), level > 700 ? [] : [{ id, level, args: [i, obj] }], `${method} of logger ${i} at ${r.id}`)
			}
		c.eq(m.page.console, [], 'written to the console')
		c.state(kind, name, s.what)
		c.outcome(id)
	}
}

// Long names, ids and prefixes, many loggers, many arguments and many entries.
const large = {
	name: 'large numbers and long names',
	async: true,
	async run(c) {
		const kind = c.pick('kind', KINDS)
		const what = c.pick('what', ['long', 'loggers', 'arguments', 'entries', 'reporters'])
		const n = c.pick('size', what === 'long' ? lengths(c).filter(k => k <= 5000) : counts(c))
		if (!c.mine()) return
		const m = c.load()
		const reporters = Array.from({ length: what === 'reporters' ? n : 2 }, (_, i) => m.app.createMemoryLogReporter({ id: `r${i}` }))
		const name = what === 'long' ? long(n, 'n') : 'n'
		const app = await create(m, kind, name, { reporters, logLevel: 700 })
		if (isTest(kind)) reporters.push(app.log.reporter)
		reporters.forEach(r => take(c, r)) // the creation
		c.step(`${kind}: ${what} ${n}`)
		const all = (exp, what) => reporters.forEach(r => eqEntries(c, take(c, r), exp, `${what} at ${r.id}`))
		if (what === 'long') {
			for (const s of sources(['l', long(n, 'i'), `${long(n, 'i')}2`], ['p', long(n, 'p')], ['l', long(n, 'i')])) {
				const l = s.get(app, m)
				const id = s.id ? `${name}:${s.id}` : name
				const args = [text(n), `${text(n)}2`]
				l.warn(...args)
				l.debug(...args)
				l.info(...args)
				all([{ id, level: 500, args }, { id, level: 700, args }], s.what.slice(0, 40))
			}
		} else if (what === 'loggers') {
			const get = i => (i % 3 === 2 ? m.app.createPrefixedGetLogger(app, 'p')(`l${i}`) : i % 3 ? app.log.getNonConsoleLogger(`l${i}`) : app.log.getLogger(`l${i}`))
			const idOf = i => (i % 3 === 2 ? `n:p:l${i}` : `n:l${i}`)
			const ls = Array.from({ length: n }, (_, i) => get(i))
			for (let i = 0; i < n; i++) {
				ls[i].warn(i)
				get(n - 1 - i).info(i)
				all([{ id: idOf(i), level: 500, args: [i] }, { id: idOf(n - 1 - i), level: 700, args: [i] }], `logger ${i}`)
			}
		} else if (what === 'arguments') {
			const args = Array.from({ length: n }, (_, i) => i)
			for (const [id, l] of [['n', app.log], ['n:l', app.log.getLogger('l')], ['n:nc', app.log.getNonConsoleLogger('nc')]]) {
				l.warn(...args)
				l.on(400, log => log(...args))
				l.debug(...args)
				all([500, 400].map(level => ({ id, level, args })), `${n} arguments`)
			}
		} else {
			const rounds = what === 'entries' ? n * 4 : 3
			const ls = [app.log, app.log.getLogger('l'), app.log.getNonConsoleLogger('nc')]
			const exp = []
			for (let i = 0; i < rounds; i++) {
				ls[i % 3].notice(i)
				ls[i % 3].trace(i)
				exp.push({ id: ['n', 'n:l', 'n:nc'][i % 3], level: 600, args: [i] })
			}
			all(exp, 'everything logged')
		}
		c.eq(m.page.console, [], 'written to the console')
		c.state(kind, what, n)
		c.outcome([kind, what, n])
	}
}

// Two apps alive, loggers obtained and used in every order.
const two = {
	name: 'two apps',
	async: true,
	depth: { quick: 3, thorough: 4 },
	async run(c) {
		const big = c.tier === 'thorough' && c.depth <= 3
		const kinds = big ? [c.pick('kind', ['justApp', 'justTestApp']), c.pick('other kind', ['justApp', 'justTestApp'])] : Array(2).fill(c.pick('kinds', ['justApp', 'justTestApp']))
		const share = c.pick('sharing', ['nothing', 'name', 'name and options'])
		const m = c.load()
		const reporters = ['x', 'y'].map(t => m.app.createMemoryLogReporter({ id: `mem ${t}` }))
		const levels = share === 'name and options' ? [700, 700] : [700, 900]
		const shared = { logLevel: 700 }
		const apps = []
		const names = ['x', share === 'nothing' ? 'y' : 'x']
		for (const i of [0, 1]) {
			// with shared options the test apps use their own reporters; the others are given theirs
			const log = share === 'name and options' && isTest(kinds[i]) ? shared : { reporters: [reporters[i]], logLevel: levels[i] }
			apps.push(await create(m, kinds[i], names[i], log))
			if (log === shared) reporters[i] = apps[i].log.reporter
		}
		c.ok(reporters[0] !== reporters[1], 'each app has its own reporter')
		reporters.forEach(r => take(c, r))
		const list = [
			{ get: a => a.log, id: '' },
			{ get: a => a.log.getLogger('l'), id: ':l' },
			{ get: a => a.log.getNonConsoleLogger('nc'), id: ':nc' },
			{ get: a => m.app.createPrefixedGetLogger(a, 'p')('l'), id: ':p:l' }
		]
		const kept = [[], []]
		c.note(`${kinds}, sharing ${share}`)
		for (let k = 0; k < c.depth; k++) {
			const i = c.choose('app', 2)
			const s = c.choose('source', list.length)
			const again = c.bool('asked for again')
			const method = c.pick('method', big ? ['info', 'trace', 'count'] : ['info', 'trace'])
			const l = !again && kept[i][s] ? kept[i][s] : list[s].get(apps[i])
			kept[i][s] = l
			c.step(`app ${i}: ${again ? 'new ' : ''}logger ${s} ${method}`)
			l[method](k, obj)
			const own = take(c, reporters[i])
			const level = method === 'count' ? 800 : LEVELS[method]
			const exp = level > levels[i] ? [] : [{ id: `${names[i]}${list[s].id}`, level, args: [k, obj] }]
			if (method === 'count' && exp.length) {
				c.eq(own.length, 1, 'entries of count()')
				c.ok(Number.isInteger(own[0].args.shift()), 'a count')
			}
			eqEntries(c, own, exp, `app ${i}`)
			eqEntries(c, take(c, reporters[1 - i]), [], `app ${1 - i}, which logged nothing,`)
			c.state(kinds, share, i, s, method, kept.map(x => x.map(y => !!y)))
		}
	}
}

// Without reporters, the entries go to the console of the page.
const consoles = {
	name: 'default console',
	async: true,
	async run(c) {
		const kind = c.pick('kind', ['justApp', 'logGizmoFn'])
		const logLevel = c.pick('verbosity', VERBOSITY)
		const method = c.pick('method', Object.keys(LEVELS))
		const source = c.pick('source', ['app.log', 'getLogger', 'prefixed'])
		const m = c.load()
		const app = await create(m, kind, 'n', logLevel === undefined ? undefined : { logLevel })
		m.page.console.splice(0)
		const l = source === 'app.log' ? app.log : source === 'getLogger' ? app.log.getLogger('l') : m.app.createPrefixedGetLogger(app, 'p')('l')
		c.step(`${kind} ${source}.${method} at ${logLevel}`)
		l[method]('hello', obj)
		const lines = m.page.console.splice(0)
		if (LEVELS[method] > (logLevel ?? 700)) c.eq(lines, [], 'written to the console')
		else {
			c.eq(lines.length, 1, 'lines written to the console')
			const text = lines[0].map(x => (typeof x === 'string' ? x : show(x))).join(' ')
			c.ok(text.includes('hello'), () => `console line ${text}`)
			c.ok(lines[0].includes(obj), 'the console gets the arguments')
		}
		c.state(kind, logLevel, method, source)
		c.outcome(lines.length)
	}
}

// Options of a logger reach it.
const options = {
	name: 'logger options',
	async: true,
	async run(c) {
		const kind = c.pick('kind', KINDS)
		const level = c.pick('level', [undefined, 0, 400, 800, Infinity])
		const to = c.pick('write to', [undefined, 'one', /^t/, 'function', 'reporter'])
		const source = c.pick('source', ['getLogger', 'getLogger no id', 'prefixed', 'getNonConsoleLogger', 'prefixed non console'])
		const m = c.load()
		const reporters = [m.app.createMemoryLogReporter({ id: 'one' }), m.app.createMemoryLogReporter({ id: 'two' })]
		const extra = m.app.createMemoryLogReporter({ id: 'extra' })
		const app = await create(m, kind, 'n', { reporters })
		reporters.forEach(r => take(c, r))
		const opts = {}
		if (level !== undefined) opts.level = level
		if (to !== undefined) opts.writeTo = to === 'function' ? id => id === 'two' : to === 'reporter' ? extra : to
		const nc = source.includes('on')
		c.step(`${kind} ${source} level ${level} to ${to}`)
		let l
		let id
		switch (source) {
			case 'getLogger':
				l = app.log.getLogger('l', opts)
				id = 'n:l'
				break
			case 'getLogger no id':
				// the logger of the app exists already, with its own options
				l = app.log.getLogger(undefined, opts)
				id = 'n'
				break
			case 'prefixed':
				l = m.app.createPrefixedGetLogger(app, 'p')('l', opts)
				id = 'n:p:l'
				break
			case 'getNonConsoleLogger':
				l = app.log.getNonConsoleLogger('l', opts)
				id = 'n:l'
				break
			case 'prefixed non console':
				l = m.app.createPrefixedGetNonConsoleLogger(app, 'p')('l', opts)
				id = 'n:p:l'
				break
		}
		const fixed = source === 'getLogger no id'
		const toAll = fixed || to === undefined || source.includes('Console') || source.includes('console')
		const verbosity = fixed || level === undefined ? (isTest(kind) ? 800 : 700) : level
		l.info('i')
		l.trace('t')
		const exp = [['info', 700], ['trace', 900]].filter(x => x[1] <= verbosity).map(([n, v]) => ({ id, level: v, args: [n[0]] }))
		const gets = { one: toAll || to === 'one', two: toAll || to === 'function' || to instanceof RegExp, extra: !toAll && to === 'reporter' }
		for (const r of [...reporters, extra]) eqEntries(c, take(c, r), gets[r.id] ? exp : [], `at ${r.id}`)
		c.state(kind, level, show(to), source)
		c.outcome([exp.length, gets])
		void nc
	}
}

export default {
	property: 'C10',
	entries,
	scenarios: [one, names, two, consoles, options, large],
	assumptions: [
		'names and ids without the characters which standard-log replaces by dashes',
		'console and non-console loggers of the same id are not mixed (standard-log disables the latter)'
	]
}
