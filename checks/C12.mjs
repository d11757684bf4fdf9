// C12: a command reaches the right handler before and after it is connected.
import { same, show } from '../lib/values.mjs'
import { counts, lengths, name as long } from './_large.mjs'
import { entries, ERROR, makeApp, NOTICE, WARN } from './_commands.mjs'

const ID = 'plug.act'
const INFOS = {
	'by id': ID,
	plain: { id: ID },
	described: { id: ID, title: '', description: 'd', category: 'c', commandPalette: false },
	key: { id: ID, key: 'ctrl+a' },
	mac: { id: ID, mac: 'cmd+a' },
	both: { id: ID, title: 't', key: 'ctrl+a', mac: 'cmd+a' }
}
const OBJ = { o: 1 }
const error = new Error('handler')

function handlers(calls) {
	let n = 0
	return (name, kind = n % 3) => {
		const tag = `${name}${n++}`
		const body = args => {
			calls.push([tag, args])
			if (kind === 2) throw error
			return kind === 1 ? OBJ : 0
		}
		// handlers can have optional parameters, which their `length` tells nothing about
		const f = n % 2 ? (...args) => body(args) : function (a, b = 1) { return body([...arguments]) }
		return Object.assign(f, { tag, kind })
	}
}

/** Reads everything of an app which a command may change. */
function look(app) {
	return {
		handlers: [...app.commands.handlers.keys()].sort(),
		contributions: { ...app.commands.contributions.get() },
		keys: app.keyboard ? { ...app.keyboard.keyBindingContributions.get() } : undefined
	}
}

const histories = {
	name: 'calling, connecting, defining and registering',
	async: true,
	depth: { quick: 4, thorough: 5 },
	async run(c) {
		const declared = c.pick('declared', Object.keys(INFOS))
		const withDefault = c.bool('default handler')
		const keyboards = c.tier === 'thorough' ? c.pick('keyboards', [[true, false], [true, true], [false, false]]) : c.pick('keyboards', [[true, false], [true, true]])
		const m = c.load()
		const calls = []
		const mk = handlers(calls)
		const info = INFOS[declared]
		const given = typeof info === 'string' ? info : { ...info }
		const dflt = withDefault ? mk('default') : undefined
		const cmd = withDefault ? m.commands.command(given, dflt) : m.commands.command(given)
		const apps = []
		for (const i of [0, 1]) apps.push(await makeApp(m, { name: 'xy'[i], keyboard: keyboards[i] }))
		apps.forEach(a => a.takeLogs())
		m.page.console.splice(0)
		c.note(`declared ${declared}${withDefault ? ', with default handler' : ''}, keyboards ${keyboards}`)
		c.eq([cmd.id, cmd.name], [ID, ID], 'id and name of the command')

		// the reference
		let current = dflt // handler of the command itself
		let at // app it is connected to
		const regs = [undefined, undefined] // handler registered in each app
		const contributed = [false, false]
		const bound = [false, false]
		const globalErrors = () => m.page.console.splice(0).filter(l => l[0] === 'error' || l[0] === 'warn').length
		for (let step = 0; step < c.depth; step++) {
			const op = c.pick('op', ['call', 'connect x', 'connect x with handler', 'connect y', 'connect y with handler', 'define', 'register in x', 'register in y', 'withdraw from x'])
			c.step(op)
			const logs = () => apps.map(a => a.takeLogs())
			if (op === 'call') {
				const args = step % 2 ? [] : [step, OBJ, undefined]
				const r = c.attempt(() => cmd(...args))
				const h = at === undefined ? current : regs[at]
				const l = logs()
				const g = globalErrors()
				if (h) {
					c.eq(calls.map(x => x[0]), [h.tag], 'handlers called')
					c.eq(calls[0][1].length, args.length, 'number of arguments')
					args.forEach((a, i) => c.is(calls[0][1][i], a, `argument ${i}`))
					c.is(r.threw, h.kind === 2, 'throws')
					if (r.threw) c.is(r.error, error, 'error')
					else c.is(r.value, h.kind === 1 ? OBJ : 0, 'result')
					c.eq([l, g], [[[], []], 0], 'logged')
				} else {
					c.eq(calls, [], 'handlers called')
					c.eq(r, { threw: false, value: undefined }, 'a call without handler')
					const n = l.map(x => x.length)
					c.ok(l.flat().every(x => x.level === ERROR && x.text.includes(ID)), 'the errors logged name the command')
					if (at === undefined) c.eq(n[0] + n[1] + g, 1, 'errors logged')
					else c.eq([n, g], [at === 0 ? [1, 0] : [0, 1], 0], 'errors logged by each app')
				}
				calls.length = 0
			} else if (op.startsWith('connect')) {
				const i = op[8] === 'x' ? 0 : 1
				const h = op.endsWith('handler') ? mk('given') : undefined
				c.is(h ? cmd.connect(apps[i].app, h) : cmd.connect(apps[i].app), undefined, 'result of connect()')
				at = i
				if (h) current = h
				const l = logs()
				c.eq(l[1 - i], [], 'logged by the other app')
				if (current) {
					const isInfo = typeof info !== 'string'
					const binds = isInfo && keyboards[i] && (info.key || info.mac)
					const exp = [regs[i] && NOTICE, isInfo && contributed[i] && ERROR, binds && bound[i] && WARN].filter(Boolean)
					c.eq(l[i].map(x => x.level).sort(), exp.sort(), 'logged when connecting')
					regs[i] = current
					if (isInfo) contributed[i] = true
					if (binds) bound[i] = true
				} else c.eq(l[i], [], 'logged when connecting without a handler')
				c.eq([calls, globalErrors()], [[], 0], 'calls when connecting')
			} else if (op === 'define') {
				const h = mk('defined')
				c.is(cmd.defineHandler(h), h, 'result of defineHandler()')
				current = h
				c.eq([calls, logs(), globalErrors()], [[], [[], []], 0], 'calls and logs when defining')
			} else if (op.startsWith('withdraw')) {
				for (const R of [apps[0].app.commands.contributions, apps[0].app.keyboard?.keyBindingContributions]) R?.set(r => void delete r[ID])
				contributed[0] = bound[0] = false
				c.eq([calls, logs(), globalErrors()], [[], [[], []], 0], 'calls and logs when withdrawing the contributions')
			} else {
				const i = op.endsWith('x') ? 0 : 1
				const h = mk('registered')
				apps[i].app.commands.handlers.register(ID, h)
				regs[i] = h
				logs()
			}
			apps.forEach((a, i) => {
				const v = look(a.app)
				c.eq(v.handlers, regs[i] ? [ID] : [], `commands registered in app ${i}`)
				c.eq(v.contributions, contributed[i] ? { [ID]: info } : {}, `contributions of app ${i}`)
				if (keyboards[i]) c.eq(v.keys, bound[i] ? { [ID]: info } : {}, `key bindings of app ${i}`)
			})
			c.state(declared, withDefault, keyboards, current?.tag, at, regs.map(r => r?.tag), contributed, bound)
		}
		if (typeof info !== 'string') c.ok(same(given, info), 'the information given is unchanged')
		c.outcome([declared, at, contributed, bound])
	}
}

// Several commands connected to the same apps do not get in each other's way, whatever their ids.
const several = {
	name: 'two commands',
	async: true,
	depth: { quick: 4, thorough: 5 },
	async run(c) {
		const ids = c.pick('ids', [['a.b', 'a.c'], ['constructor', 'toString'], ['a', 'a.b'], ['__proto__', '']])
		const forms = c.pick('declared', [['id', 'info'], ['info', 'info'], ['info with key', 'info with key']])
		const m = c.load()
		const calls = []
		const mk = handlers(calls)
		const infoOf = i => ({ id: forms[i] === 'id' ? ids[i] : { id: ids[i], ...(forms[i].endsWith('key') && { key: `ctrl+${i}` }) } }).id
		const hs = [mk('a', 1), mk('b', 1)]
		const cmds = [0, 1].map(i => m.commands.command(infoOf(i), hs[i]))
		const apps = [await makeApp(m, { name: 'x' }), await makeApp(m, { name: 'y' })]
		const at = [undefined, undefined]
		const connected = [[false, false], [false, false]] // [command][app]
		c.note(`${show(ids)} ${forms}`)
		for (let k = 0; k < c.depth; k++) {
			const i = c.choose('command', 2)
			const op = c.pick('op', ['call', 'connect x', 'connect y'])
			c.step(`${op} ${show(ids[i])}`)
			if (op === 'call') {
				c.is(cmds[i](k), OBJ, 'result')
				c.eq(calls.splice(0), [[hs[i].tag, [k]]], 'handlers called')
			} else {
				const j = op.endsWith('x') ? 0 : 1
				cmds[i].connect(apps[j].app)
				at[i] = j
				connected[i][j] = true
			}
			apps.forEach((a, j) => {
				const H = a.app.commands.handlers
				const C = a.app.commands.contributions
				const K = a.app.keyboard.keyBindingContributions
				for (const i of [0, 1]) {
					c.is(H.has(ids[i]), connected[i][j], `app ${j} has ${show(ids[i])}`)
					c.is(C.has(ids[i]), connected[i][j] && forms[i] !== 'id', `app ${j} has the contribution ${show(ids[i])}`)
					c.is(K.has(ids[i]), connected[i][j] && forms[i].endsWith('key'), `app ${j} has the key of ${show(ids[i])}`)
					if (C.has(ids[i])) c.eq(C.get()[ids[i]], infoOf(i), 'contribution')
				}
				c.eq([H.keys().length, C.size()], [[0, 1].filter(i => connected[i][j]).length, [0, 1].filter(i => connected[i][j] && forms[i] !== 'id').length], 'numbers')
				if (H.has(ids[0])) {
					c.is(H.invoke(ids[0], 'direct'), OBJ, 'result through the app')
					c.eq(calls.splice(0), [[hs[0].tag, ['direct']]], 'handler called through the app')
				}
			})
			c.state(ids, forms, at, connected)
		}
		c.outcome([forms, connected])
	}
}

// Many arguments, many calls, many commands, many apps and long ids.
const large = {
	name: 'large numbers and long ids',
	async: true,
	async run(c) {
		const what = c.pick('what', ['arguments', 'calls', 'commands', 'apps', 'long id'])
		const form = c.pick('declared', ['id', 'info', 'info with key'])
		const dflt = c.bool('default handler')
		const n = c.pick('size', what === 'long id' ? lengths(c) : what === 'apps' ? [9, 12, c.tier === 'thorough' ? 60 : 20] : counts(c))
		if (!c.mine()) return
		const m = c.load()
		const calls = []
		const mk = (tag) => (...args) => {
			calls.push([tag, args])
			return `${tag} ${args.length}`
		}
		const infoOf = (id, i) => (form === 'id' ? id : { id, ...(form === 'info with key' && { key: `ctrl+${i}` }) })
		const apps = []
		for (let i = 0; i < (what === 'apps' ? n : 1); i++) apps.push(await makeApp(m, { name: `x${i}` }))
		c.step(`${n} ${what}, ${form}, ${dflt ? 'with default' : 'without default'}`)
		const ids = what === 'commands' ? Array.from({ length: n }, (_, i) => `c.${i}`) : [what === 'long id' ? long(n, 'c.') : 'c']
		const cmds = ids.map((id, i) => (dflt ? m.commands.command(infoOf(id, i), mk(i)) : m.commands.command(infoOf(id, i))))
		const args = what === 'arguments' ? Array.from({ length: n }, (_, i) => i) : [1, OBJ]
		const callAll = when =>
			cmds.forEach((cmd, i) => {
				c.eq([cmd.id, cmd.name], [ids[i], ids[i]], 'id and name')
				for (let k = 0; k < (what === 'calls' ? n : 1); k++) {
					c.is(cmd(...args), `${i} ${args.length}`, `result of call ${k} of ${i} ${when}`)
					const got = calls.splice(0)
					c.is(got.length, 1, `handlers called by call ${k} of ${i} ${when}`)
					c.is(got[0][0], i, `handler called by call ${k} of ${i} ${when}`)
					c.eq(got[0][1], args, `arguments of call ${k} of ${i} ${when}`)
				}
			})
		if (dflt) callAll('before connecting')
		for (const a of apps) {
			cmds.forEach((cmd, i) => (dflt ? cmd.connect(a.app) : cmd.connect(a.app, mk(i))))
			const H = a.app.commands.handlers
			const C = a.app.commands.contributions
			c.eq([H.keys(), C.keys()], [ids, form === 'id' ? [] : ids], 'registered in the app')
			ids.forEach((id, i) => {
				if (form !== 'id') c.eq(C.get()[id], infoOf(id, i), `contribution ${i}`)
				c.is(H.invoke(id, ...args), `${i} ${args.length}`, `result of ${i} through the app`)
				c.eq(calls.splice(0), [[i, args]], `handlers called of ${i} through the app`)
			})
			callAll('after connecting')
		}
		// every app has kept what was connected to it
		for (const a of apps) {
			c.eq(a.app.commands.handlers.keys(), ids, 'registered at the end')
			c.eq(a.takeLogs().filter(l => l.level < 700), [], 'logged')
		}
		c.state(what, form, dflt, n)
		c.outcome([what, form, n])
	}
}

export default {
	property: 'C12',
	entries,
	scenarios: [histories, several, large],
	assumptions: ['a handler given when connecting is the default handler of later connections', 'connecting again to the same app is reported as a duplicate contribution (C13)']
}
