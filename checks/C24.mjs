// C24: navigation runs exactly the handler of the registered route.
import { counts, name, ORDERS } from './_large.mjs'
import { sparse } from '../lib/explore.mjs'
import { show } from '../lib/values.mjs'

const entries = {
	app: ['@just-web/app', 'justApp', 'createMemoryLogReporter'],
	appT: ['@just-web/app/testing', 'justTestApp'],
	routes: ['@just-web/routes', 'routesGizmo']
}
const ERROR = 400
const HOSTILE = ['/', '', 'r', '/r', 'constructor', 'toString', '__proto__', 'hasOwnProperty', 'valueOf', '0', 'length', ' ', '/é?x=1#y', 'undefined', 'null', 'config', 'routes']

async function makeApp(m, logLevel) {
	const reporter = m.app.createMemoryLogReporter({ id: 'mem' })
	const app = await m.appT.justTestApp({ name: 'x', log: { reporters: [reporter], ...(logLevel !== undefined && { logLevel }) } }).with(m.routes.routesGizmo).create()
	const take = () => reporter.logs.splice(0).filter(e => e.level <= ERROR).map(e => ({ level: e.level, text: e.args.join(' ') }))
	take()
	return { app, take }
}
function noErrors(c, take, what) {
	c.eq(take(), [], `errors logged ${what}`)
}
function oneError(c, take, named, what) {
	const logs = take()
	c.eq(logs.length, 1, `number of errors logged ${what}`)
	c.ok(logs[0].text.includes(named), () => `the error logged ${what} does not name ${show(named)}: ${logs[0].text}`)
}

class Model {
	constructor() {
		this.routes = new Map()
		this.initial = '/'
	}
}
function navigate(c, app, take, M, calls, route, what) {
	calls.splice(0)
	const target = route === undefined ? M.initial : route
	const r = c.attempt(() => (route === undefined ? app.routes.navigate() : app.routes.navigate(route)))
	const h = M.routes.get(target)
	c.eq(calls.map(x => x.tag), h ? [h.tag] : [], `handlers run by navigating to ${show(route)} ${what}`)
	if (h) {
		c.eq(calls[0].args, [], 'arguments of the handler')
		if (h.throws) c.ok(r.threw && r.error === h.throws, 'the error of the handler is passed on')
		else c.ok(!r.threw, () => `navigating throws ${show(r.error)}`)
		noErrors(c, take, `by navigating to ${show(route)} ${what}`)
	} else {
		c.ok(!r.threw, () => `navigating to an unknown route throws ${show(r.error)}`)
		oneError(c, take, target, `by navigating to the unknown ${show(target)} ${what}`)
	}
}
function handler(calls, tag, throws) {
	const f = (...args) => {
		calls.push({ tag, args })
		if (throws) throw throws
	}
	return Object.assign(f, { tag, throws })
}
const present = (c, app, M, routes, what) => {
	for (const r of routes) c.is(app.routes.hasRoute(r), M.routes.has(r), `hasRoute(${show(r)}) ${what}`)
}

const wide = {
	name: 'every pair of routes',
	async: true,
	async run(c) {
		const r1 = c.pick('registered', HOSTILE)
		const r2 = c.pick('other', HOSTILE)
		const then = c.pick('then', ['nothing', 'register the other', 'unregister', 'clear', 'configure', 'configure the other'])
		const m = c.load()
		const { app, take } = await makeApp(m)
		const M = new Model()
		const calls = []
		present(c, app, M, HOSTILE, 'at first')
		for (const r of [r1, r2]) navigate(c, app, take, M, calls, r, 'at first')
		c.step(`${show(r1)}, ${show(r2)}, then ${then}`)
		const h1 = handler(calls, 'h1')
		const off1 = app.routes.register(r1, h1)
		M.routes.set(r1, h1)
		noErrors(c, take, 'by registering')
		present(c, app, M, HOSTILE, 'after registering')
		for (const r of HOSTILE) navigate(c, app, take, M, calls, r, 'after registering')
		const reg = () => {
			const h2 = handler(calls, 'h2')
			const off2 = app.routes.register(r2, h2)
			if (M.routes.has(r2)) oneError(c, take, r2, 'by registering an existing route')
			else {
				M.routes.set(r2, h2)
				noErrors(c, take, 'by registering the other')
			}
			return off2
		}
		if (then === 'register the other') {
			const dup = r1 === r2
			const off2 = reg()
			present(c, app, M, HOSTILE, 'after registering the other')
			for (const r of [r1, r2]) navigate(c, app, take, M, calls, r, 'after registering the other')
			off2()
			if (!dup) M.routes.delete(r2)
		} else if (then === 'unregister') {
			off1()
			M.routes.delete(r1)
			reg()
			off1()
		} else if (then === 'clear') {
			app.routes.clearRoutes()
			M.routes.clear()
			reg()
			off1()
		} else if (then.startsWith('configure')) {
			M.initial = then === 'configure' ? r1 : r2
			app.routes.config({ initialRoute: M.initial })
		}
		present(c, app, M, HOSTILE, `after ${then}`)
		for (const r of [r1, r2, undefined]) navigate(c, app, take, M, calls, r, `after ${then}`)
		c.state([...M.routes.keys()], M.initial)
		c.outcome([[...M.routes.keys()], M.initial])
	}
}

function historiesOf(name, depth, cfg) {
	return {
		name,
		async: true,
		depth,
		async run(c) {
			const routes = c.pick('routes', cfg.routes)
			const m = c.load()
			const { app, take } = await makeApp(m, cfg.logLevel)
			const api = cfg.detached && c.bool('detached') ? { ...app.routes } : app.routes
			const M = new Model()
			const calls = []
			const regs = [] // {off, route, h, live}
			for (let i = 0; i < c.depth; i++) {
				const menu = []
				for (const r of routes) menu.push(['register', r], ['navigate', r])
				menu.push(['navigate'], ['clear'])
				for (const r of cfg.configure ? [...routes, 'x'] : routes.slice(0, 1)) menu.push(['config', r])
				regs.forEach(g => menu.push(['unregister', g]))
				if (cfg.same && regs.length) menu.push(['register same', routes[0]])
				const [op, a] = menu[c.choose('op', menu.length)]
				c.step(`${op} ${op === 'unregister' ? `registration ${a.i} (${show(a.route)})` : show(a)}`)
				if (op === 'register' || op === 'register same') {
					const h = op === 'register' ? handler(calls, `h${regs.length}`, cfg.throwing && regs.length % 2 ? new Error('handler') : undefined) : regs[0].h
					const off = api.register(a, h)
					const ok = !M.routes.has(a)
					if (ok) {
						M.routes.set(a, h)
						noErrors(c, take, 'by registering')
					} else oneError(c, take, a, 'by registering an existing route')
					const g = { i: regs.length, off, route: a, h, live: ok }
					regs.push(g)
				} else if (op === 'navigate') navigate(c, { routes: api }, take, M, calls, a, '')
				else if (op === 'clear') {
					api.clearRoutes()
					M.routes.clear()
					regs.forEach(g => (g.live = false))
				} else if (op === 'config') {
					const given = { initialRoute: a }
					api.config(given)
					given.initialRoute = '/edited afterwards' // still the object of the one who gave it
					M.initial = a
				} else {
					a.off()
					if (a.live) M.routes.delete(a.route)
					a.live = false
				}
				noErrors(c, take, `by ${op}`)
				c.eq(op === 'navigate' ? calls.splice(0) && [] : calls, [], 'handlers run without navigating')
				if (c.look(i)) present(c, { routes: api }, M, [...routes, 'x'], `after ${op}`)
				c.state(routes, [...M.routes].map(([k, h]) => [k, h.tag]), M.initial, regs.map(g => [g.route, g.live]))
			}
			for (const r of [...routes, undefined]) navigate(c, { routes: api }, take, M, calls, r, 'at the end')
			c.outcome([...M.routes.keys(), M.initial])
		}
	}
}

// Handlers which act on the routes themselves.
const nested = {
	name: 'handlers acting on routes',
	async: true,
	async run(c) {
		const act = c.pick('handler', ['unregisters itself', 'clears', 'registers another', 'registers itself', 'navigates elsewhere', 'navigates to unknown', 'configures', 'navigates to itself once', 'unregisters and registers'])
		const twice = c.bool('unregisters twice')
		const route = c.pick('route', ['/a', 'constructor', ''])
		const m = c.load()
		const { app, take } = await makeApp(m)
		const r = app.routes
		const calls = []
		let first = true
		let errors = 0
		const h2 = () => void calls.push('h2')
		const off = r.register(route, () => {
			calls.push('h1')
			if (!first) return
			first = false
			if (act === 'unregisters itself') off()
			if (act === 'clears') r.clearRoutes()
			if (act === 'registers another') r.register('/b', h2)
			if (act === 'registers itself') r.register(route, h2)
			if (act === 'navigates elsewhere') r.navigate('/o')
			if (act === 'navigates to unknown') r.navigate('toString')
			if (act === 'configures') r.config({ initialRoute: '/o' })
			if (act === 'navigates to itself once') r.navigate(route)
			if (act === 'unregisters and registers') {
				off()
				r.register(route, h2)
				if (twice) off()
			}
		})
		r.register('/o', () => void calls.push('o'))
		c.step(`handler of ${show(route)} ${act}`)
		r.navigate(route)
		c.eq(calls.splice(0), { 'navigates elsewhere': ['h1', 'o'], 'navigates to itself once': ['h1', 'h1'] }[act] ?? ['h1'], 'handlers run')
		errors = take().length
		c.is(errors, act === 'registers itself' || act === 'navigates to unknown' ? 1 : 0, 'errors logged')
		r.navigate(route)
		c.eq(calls.splice(0), { 'unregisters itself': [], clears: [], 'unregisters and registers': ['h2'] }[act] ?? ['h1'], 'handlers run again')
		c.is(r.hasRoute('/o'), act !== 'clears', 'the other route')
		c.is(r.hasRoute('/b'), act === 'registers another', 'another route')
		take()
		off()
		r.navigate(route)
		c.eq(calls.splice(0), act === 'unregisters and registers' ? ['h2'] : [], 'handlers run after unregistering')
		take()
		r.navigate()
		c.eq(calls, act === 'configures' ? ['o'] : [], 'handlers run by the initial route')
		c.state(act, twice, route)
		c.outcome([act, errors])
	}
}

const two = {
	name: 'two apps',
	async: true,
	depth: { quick: 3, thorough: 4 },
	async run(c) {
		const m = c.load()
		const apps = [await makeApp(m), await makeApp(m)]
		const Ms = [new Model(), new Model()]
		const calls = []
		for (let i = 0; i < c.depth; i++) {
			const a = c.choose('app', 2)
			const op = c.pick('op', ['register /', 'register constructor', 'clear', 'config'])
			const { app } = apps[a]
			const M = Ms[a]
			c.step(`app ${a}: ${op}`)
			if (op.startsWith('register')) {
				const r = op.slice(9)
				const h = handler(calls, `h${i}`)
				app.routes.register(r, h)
				if (!M.routes.has(r)) M.routes.set(r, h)
			} else if (op === 'clear') {
				app.routes.clearRoutes()
				M.routes.clear()
			} else {
				app.routes.config({ initialRoute: 'constructor' })
				M.initial = 'constructor'
			}
			apps.forEach(x => x.take())
			for (const j of [0, 1]) for (const r of ['/', 'constructor', undefined]) navigate(c, apps[j].app, apps[j].take, Ms[j], calls, r, `app ${j}`)
			for (const j of [0, 1]) present(c, apps[j].app, Ms[j], HOSTILE, `app ${j}`)
			c.state(Ms.map(M => [[...M.routes.keys()], M.initial]))
		}
		c.outcome(Ms.map(M => [[...M.routes.keys()], M.initial]))
	}
}

// Many routes, long names, many navigations.
const large = {
	name: 'many routes',
	async: true,
	async run(c) {
		const n = c.pick('routes', counts(c))
		const length = c.pick('length of the names', [1, 60, 3000])
		const order = c.pick('unregistered', [...Object.keys(ORDERS), 'all cleared'])
		const m = c.load()
		const { app, take } = await makeApp(m)
		const M = new Model()
		const calls = []
		const route = i => name(length, `/r${i}`)
		const hs = Array.from({ length: n }, (_, i) => handler(calls, `h${i}`))
		const offs = hs.map((h, i) => {
			M.routes.set(route(i), h)
			return app.routes.register(route(i), h)
		})
		noErrors(c, take, 'by registering')
		c.step(`${n} routes of length ${length}, unregistered ${order}`)
		for (let i = 0; i < n; i++) navigate(c, app, take, M, calls, route(i), 'at first')
		for (let i = 0; i < n; i++) navigate(c, app, take, M, calls, route(0), 'again and again')
		if (order === 'all cleared') {
			app.routes.clearRoutes()
			M.routes.clear()
		} else
			for (const i of ORDERS[order](n)) {
				if (i % 3 === 0) continue
				offs[i]()
				M.routes.delete(route(i))
			}
		present(c, app, M, hs.map((_, i) => route(i)), 'at the end')
		for (const i of new Set([0, 1, 2, n >> 1, n - 2, n - 1])) navigate(c, app, take, M, calls, route(i), 'at the end')
		c.state(n, length, order)
	}
}

export default {
	property: 'C24',
	entries,
	scenarios: [
		wide,
		historiesOf('histories', { quick: 5, thorough: 6 }, { routes: [['/', 'toString'], ['', '__proto__']], configure: false }),
		sparse(historiesOf('longer histories', {}, { routes: [['/', 'toString']], configure: false }), { quick: 4, thorough: 5 }),
		historiesOf('configuring', { quick: 4, thorough: 5 }, { routes: [['/', '']], configure: true, detached: true, throwing: true, same: true }),
		historiesOf('with every log level', { quick: 4, thorough: 5 }, { routes: [['/', 'r']], logLevel: Infinity }),
		nested,
		two,
		large
	],
	assumptions: ['routes are strings; the configuration holds an initial route only']
}
