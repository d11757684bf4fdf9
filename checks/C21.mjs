// C21: pressing a bound key invokes exactly its command; anything else invokes nothing.
import { show } from '../lib/values.mjs'

const entries = {
	app: ['@just-web/app', 'justApp', 'createMemoryLogReporter'],
	appT: ['@just-web/app/testing', 'justTestApp'],
	commands: ['@just-web/commands', 'command', 'commandsGizmoFn'],
	keyboard: ['@just-web/keyboard', 'keyboardGizmoFn'],
	os: ['@just-web/os', 'osGizmo'],
	osT: ['@just-web/os/testing', 'osTestGizmoFn'],
	bk: ['@just-web/browser-keyboard', 'browserKeyboardGizmo'],
	bkT: ['@just-web/browser-keyboard/testing', 'browserKeyboardGizmoTestApp']
}

const CODES = { option: 18, return: 13, escape: 27,  ctrl: 17, shift: 16, alt: 18, cmd: 91, meta: 91, command: 91, esc: 27, enter: 13, f1: 112, left: 37, space: 32, tab: 9, del: 46, '/': 191, '?': 191, 1: 49 }
const isMod = k => ['ctrl', 'shift', 'alt', 'cmd', 'meta', 'command', 'option'].includes(k)

/** Dispatches what a browser sends when the keys are pressed one after another. @returns how often the default was prevented */
function press(c, m, combination, target = { tagName: 'BODY', className: '', parentNode: null }) {
	let prevented = 0
	for (const stroke of combination.split(' ')) {
		const parts = stroke.split('+')
		const mods = { shift: false, ctrl: false, alt: false, meta: false }
		const send = (type, which) => {
			const ev = {
				type,
				which,
				keyCode: which,
				shiftKey: mods.shift,
				ctrlKey: mods.ctrl,
				altKey: mods.alt,
				metaKey: mods.meta,
				target,
				preventDefault: () => void prevented++,
				stopPropagation() {}
			}
			const r = c.attempt(() => m.page.doc.dispatch(type, ev))
			if (r.threw && r.error?.message !== 'handler') throw r.error
		}
		const name = p => ALIAS[p] ?? p
		const down = []
		for (const p of parts.filter(isMod)) {
			mods[name(p)] = true
			send('keydown', CODES[p])
			down.push(p)
		}
		const key = parts.find(p => !isMod(p))
		const upper = key === '?' || (key.length === 1 && key !== key.toLowerCase())
		if (upper) mods.shift = true
		const named = key.length > 1
		const which = CODES[key] ?? key.toUpperCase().charCodeAt(0)
		send('keydown', which)
		if (!named && !mods.ctrl && !mods.meta && !mods.alt) send('keypress', (mods.shift ? key.toUpperCase() : key).charCodeAt(0))
		send('keyup', which)
		if (upper) mods.shift = false
		for (const p of down.reverse()) {
			mods[name(p)] = false
			send('keyup', CODES[p])
		}
	}
	// the library forgets sequences shortly after: before anything else is pressed
	m.page.fireTimers()
	return prevented
}

const ALIAS = { cmd: 'meta', command: 'meta', escape: 'esc', option: 'alt', return: 'enter' }
/** One spelling for each key. */
const spelled = key => key.split(' ').map(s => s.split('+').map(k => ALIAS[k] ?? k).sort().join('+')).join(' ')

/** What must be bound: the key of each contribution, in order, first wins. */
function bindings(contributions, mac) {
	const bound = new Map()
	const duplicates = []
	for (const k of Object.keys(contributions)) {
		const { id, key, mac: macKey } = contributions[k]
		const used = mac ? (macKey ?? key) : key
		if (!used) continue
		if (bound.has(spelled(used))) duplicates.push({ id, key: used })
		else bound.set(spelled(used), id)
	}
	return { bound, duplicates }
}

async function makeApp(c, m, mac, pre, cfg = {}) {
	const reporter = m.app.createMemoryLogReporter({ id: 'mem' })
	const app = await m.appT
		.justTestApp({ name: cfg.name ?? 'x', log: { reporters: [reporter], logLevel: 500 } })
		.with(m.keyboard.keyboardGizmoFn(pre.length ? { keyBindingContributions: pre } : undefined))
		.with(m.commands.commandsGizmoFn())
		.with(cfg.page ? m.os.osGizmo : m.osT.osTestGizmoFn({ isMac: () => mac }))
		.with({
			async create(ctx) {
				cfg.during?.(ctx)
				return {}
			}
		})
		.with(m.bk.browserKeyboardGizmo)
		.create()
	return { app, takeLogs: () => reporter.logs.splice(0).map(e => ({ level: e.level, text: e.args.join(' ') })) }
}

/** Presses every key and compares what is invoked. */
function pressAll(c, m, calls, contributions, mac, registered, keys, what, takeLogs) {
	const { bound } = bindings(contributions, mac)
	for (const k of keys) {
		calls.splice(0)
		const prevented = press(c, m, k)
		const id = bound.get(spelled(k))
		c.eq(calls, id !== undefined && registered.has(id) ? [id] : [], `commands invoked by ${k} ${what}`)
		if (id === undefined) c.is(prevented, 0, `default actions prevented at ${k} ${what}`)
		else c.ok(prevented > 0, `the default action of ${k} is not prevented ${what}`)
		if (!takeLogs) continue
		const errors = takeLogs().filter(l => l.level === 400)
		c.eq(errors.length, id !== undefined && !registered.has(id) ? 1 : 0, `errors logged at ${k} ${what}`)
		if (errors.length) c.ok(errors[0].text.includes(id), `the error logged at ${k} ${what} names the command`)
	}
}
function reported(c, logs, contributions, mac, what) {
	const { duplicates } = bindings(contributions, mac)
	const warns = logs.filter(l => l.level === 500)
	for (const d of duplicates) c.ok(warns.some(l => l.text.includes(d.id) && l.text.includes(d.key)), () => `the duplicate key ${d.key} of ${d.id} is not reported ${what}: ${show(warns)}`)
	for (const l of warns) c.ok(duplicates.some(d => l.text.includes(d.id)), () => `reported without a duplicate ${what}: ${l.text}`)
}

const SPECS = [
	{ id: 'one', key: 'ctrl+a' },
	{ id: 'two', key: 'ctrl+a', mac: 'cmd+a' },
	{ id: 'three', mac: 'cmd+a' },
	{ id: 'four', key: 'a', mac: 'ctrl+a' },
	{ id: 'constructor', key: 'g i' }
]
const KEYS = ['a', 'ctrl+a', 'cmd+a', 'shift+a', 'ctrl+shift+a', 'alt+a', 'b', 'ctrl+b', 'g i', 'g', 'i']

const histories = {
	name: 'adding and removing contributions',
	async: true,
	depth: { quick: 4, thorough: 5 },
	async run(c) {
		const mac = c.bool('mac')
		const start = c.pick('at the start', ['nothing', 'options', 'added by a gizmo', 'added by a gizmo, duplicate'])
		const m = c.load()
		const pre = start === 'options' ? [SPECS[1], SPECS[0]] : []
		const during = ctx => {
			if (start.startsWith('added')) ctx.keyboard.keyBindingContributions.add({ ...SPECS[0] })
			if (start.endsWith('duplicate')) ctx.keyboard.keyBindingContributions.add({ ...SPECS[1] })
		}
		const { app, takeLogs } = await makeApp(c, m, mac, pre, { during })
		const kb = app.keyboard.keyBindingContributions
		const calls = []
		const registered = new Set()
		for (const s of SPECS.slice(0, 4)) {
			app.commands.handlers.register(s.id, (...args) => {
				calls.push(args.length ? [s.id, args] : s.id)
				if (s.id === 'two') throw new Error('handler')
			})
			registered.add(s.id)
		}
		reported(c, takeLogs(), kb.get(), mac, 'at the start')
		c.step(`start with ${start}, ${mac ? 'mac' : 'other'}`)
		pressAll(c, m, calls, kb.get(), mac, registered, KEYS, 'at the start', takeLogs)
		takeLogs()
		for (let i = 0; i < c.depth; i++) {
			const n = c.choose('op', SPECS.length * 2 + 3)
			const spec = SPECS[n % SPECS.length]
			const had = Object.prototype.hasOwnProperty.call(kb.get(), spec.id)
			let what
			let changes = true
			if (n < SPECS.length) {
				if (had) return
				what = `add ${spec.id}`
				kb.add({ ...spec })
			} else if (n < SPECS.length * 2) {
				if (!had) return
				what = `remove ${spec.id}`
				kb.set(d => {
					delete d[spec.id]
				})
			} else if (n === SPECS.length * 2) {
				what = 'add two at once'
				if (Object.keys(kb.get()).length) return
				kb.add({ ...SPECS[3] }, { ...SPECS[0] })
			} else if (n === SPECS.length * 2 + 1) {
				what = 'remove all'
				kb.set(d => Object.keys(d).forEach(k => delete d[k]))
			} else {
				what = 'register the last command'
				if (registered.has('constructor')) return
				registered.add('constructor')
				app.commands.handlers.register('constructor', (...args) => calls.push(args.length ? ['constructor', args] : 'constructor'))
				changes = false
			}
			c.step(what)
			const logs = takeLogs()
			if (changes) reported(c, logs, kb.get(), mac, `after ${what}`)
			pressAll(c, m, calls, kb.get(), mac, registered, KEYS, `after ${what}`, takeLogs)
			takeLogs()
			c.state(mac, Object.keys(kb.get()), [...registered])
		}
		c.outcome([mac, Object.keys(kb.get())])
	}
}

// Every key alone and every pair of keys, on each platform; the commands may be connected ones.
const COMBOS = ['a', 'b', '1', 'ctrl+a', 'cmd+a', 'shift+a', 'alt+a', 'ctrl+shift+a', 'ctrl+alt+a', 'cmd+shift+a', 'esc', 'enter', 'f1', 'left', 'tab', 'ctrl+enter', 'shift+tab', 'ctrl+left', '/', '?', 'g i', 'x y z', 'ctrl+k ctrl+s', 'cmd+k cmd+s', 'ctrl+j g', 'cmd+j cmd+shift+l', 'meta+u', 'command+o']
const STROKES = ['g', 'i', 'x', 'ctrl+k', 'cmd+k', 'ctrl+s', 'cmd+s', 'g g', 'i g', 'x z', 'shift+b', 'ctrl+b', 'cmd+b', 'space', 'ctrl+esc', 'cmd+1']
// One key, written in several ways.
const SPELLINGS = ['cmd+a', 'command+a', 'meta+a', 'a', 'cmd+shift+a', 'shift+meta+a', 'ctrl+shift+a', 'shift+ctrl+a', 'alt+b', 'option+b', 'esc', 'escape', 'enter', 'return', 'cmd+k command+b', 'meta+k cmd+b']
const LETTERS = ['a', 'A', 'b', 'B', 'ctrl+a', 'g i', 'G']
const pairsOf = (name, COMBOS, ways) => ({
	name,
	async: true,
	async run(c) {
		const mac = c.bool('mac')
		const k1 = c.pick('first', COMBOS)
		const k2 = c.pick('second', COMBOS)
		const as = c.pick('declared as', ways)
		const via = c.pick('by', ['contribution', 'command', 'command before the start'])
		const m = c.load({ userAgent: mac ? 'Mozilla/5.0 (Macintosh; Intel Mac OS X 10_15_7) AppleWebKit/605.1.15' : undefined, platform: mac ? 'MacIntel' : 'Linux x86_64' })
		const decl = (id, k) => (as === 'key' ? { id, key: k } : as === 'mac' ? { id, mac: k } : as === 'none on a Mac' ? { id, key: k, mac: '' } : { id, key: `ctrl+q ${k}`.slice(7), mac: k })
		const calls = []
		const cmds = [
			m.commands.command(decl('c1', k1), (...args) => void calls.push(args.length ? ['c1', args] : 'c1')),
			m.commands.command(decl('c2', k2), (...args) => void calls.push(args.length ? ['c2', args] : 'c2'))
		]
		const { app, takeLogs } = await makeApp(c, m, mac, [], { page: true, during: ctx => via === 'command before the start' && cmds.forEach(x => x.connect(ctx)) })
		c.is(app.os.isMac(), mac, 'platform')
		c.step(`${mac ? 'mac' : 'other'}: ${k1} and ${k2} as ${as}, by ${via}`)
		if (via === 'contribution') {
			for (const [id, k] of [['c1', k1], ['c2', k2]]) {
				app.commands.handlers.register(id, () => void calls.push(id))
				app.keyboard.keyBindingContributions.add(decl(id, k))
			}
		} else if (via === 'command') cmds.forEach(x => x.connect(app))
		const contributions = app.keyboard.keyBindingContributions.get()
		c.eq(Object.keys(contributions), ['c1', 'c2'], 'contributions')
		const logs = takeLogs()
		reported(c, logs, contributions, mac, '')
		pressAll(c, m, calls, contributions, mac, new Set(['c1', 'c2']), COMBOS === LETTERS ? LETTERS : [...COMBOS, ...STROKES], '')
		app.keyboard.keyBindingContributions.set(d => {
			delete d.c1
		})
		pressAll(c, m, calls, app.keyboard.keyBindingContributions.get(), mac, new Set(['c1', 'c2']), [k1, k2], 'after removing the first')
		c.state(mac, k1, k2, as, via)
		c.outcome([logs.length, bindings(contributions, mac).bound.size])
	}
})

// Several apps on one page, each with keys of its own.
const apart = {
	name: 'two apps of one page',
	async: true,
	depth: { quick: 5, thorough: 6 },
	async run(c) {
		const mac = c.bool('mac')
		const same = c.bool('same name')
		const ops = []
		// at some time the second app is created, with or without a contribution
		let second = false
		for (let i = 0; i < c.depth; i++) {
			const n = c.choose('op', 4)
			if (second || n < 2) ops.push({ app: n >> 1, spec: n % 2 })
			else ops.push({ create: n - 1 })
			if (n >= 2) second = true
		}
		if (!second || !c.mine()) return
		const m = c.load()
		const SPEC = [
			[{ id: 'one', key: 'a', mac: 'ctrl+a' }, { id: 'two', key: 'ctrl+b' }],
			[{ id: 'one', key: 'c', mac: 'cmd+c' }, { id: 'two', key: 'g i' }]
		]
		const ALL = ['a', 'ctrl+a', 'ctrl+b', 'c', 'cmd+c', 'g i', 'd']
		const calls = []
		const apps = []
		const make = async pre => {
			const i = apps.length
			const x = await makeApp(c, m, mac, pre, { name: same || !i ? 'x' : 'y' })
			for (const { id } of SPEC[i]) x.app.commands.handlers.register(id, () => void calls.push(`${i} ${id}`))
			apps.push(x)
		}
		const check = what => {
			const bound = apps.map(x => bindings(x.app.keyboard.keyBindingContributions.get(), mac).bound)
			for (const k of ALL) {
				calls.splice(0)
				const prevented = press(c, m, k)
				const exp = bound.flatMap((b, i) => (b.has(spelled(k)) ? [`${i} ${b.get(spelled(k))}`] : []))
				c.eq(calls, exp, `commands invoked by ${k} ${what}`)
				c.is(prevented > 0, exp.length > 0, `default action of ${k} prevented ${what}`)
			}
			apps.forEach((x, i) => c.eq(x.takeLogs().filter(l => l.level === 500), [], `reported to app ${i} ${what}`))
		}
		await make([{ ...SPEC[0][0] }])
		for (const op of ops) {
			const what = op.create ? `creating the second app${op.create === 2 ? ' with a key' : ''}` : `adding or removing ${op.spec} of app ${op.app}`
			c.step(what)
			if (op.create) await make(op.create === 2 ? [{ ...SPEC[1][0] }] : [])
			else {
				const kb = apps[op.app].app.keyboard.keyBindingContributions
				const spec = SPEC[op.app][op.spec]
				if (kb.has(spec.id)) kb.set(d => void delete d[spec.id])
				else kb.add({ ...spec })
			}
			check(`after ${what}`)
			c.state(mac, same, apps.map(x => x.app.keyboard.keyBindingContributions.keys()))
		}
		c.outcome(apps.map(x => x.app.keyboard.keyBindingContributions.keys()))
	}
}

// Pressing and changing contributions within a command.
const nested = {
	name: 'commands changing the contributions',
	async: true,
	async run(c) {
		const mac = c.bool('mac')
		const act = c.pick('command', ['removes itself', 'adds another', 'replaces itself', 'removes the other', 'adds a duplicate'])
		const presses = [c.pick('press', ['a', 'b', 'c']), c.pick('press', ['a', 'b', 'c']), c.pick('press', ['a', 'b', 'c'])]
		const m = c.load()
		const { app } = await makeApp(c, m, mac, [{ id: 'A', key: 'a' }, { id: 'B', key: 'b' }])
		const kb = app.keyboard.keyBindingContributions
		const calls = []
		let done = false
		app.commands.handlers.register('B', () => void calls.push('B'))
		app.commands.handlers.register('C', () => void calls.push('C'))
		app.commands.handlers.register('A', () => {
			calls.push('A')
			if (done) return
			done = true
			if (act === 'removes itself') kb.set(d => void delete d.A)
			if (act === 'adds another') kb.add({ id: 'C', key: 'c' })
			if (act === 'replaces itself') kb.set(d => void (d.A = { id: 'C', key: 'c' }))
			if (act === 'removes the other') kb.set(d => void delete d.B)
			if (act === 'adds a duplicate') kb.add({ id: 'C', key: 'a' })
		})
		for (const p of presses) {
			calls.splice(0)
			const { bound } = bindings(kb.get(), mac)
			c.step(`${act}: press ${p}`)
			press(c, m, p)
			c.eq(calls, bound.has(p) ? [bound.get(p)] : [], `commands invoked by ${p}`)
			c.state(mac, act, done, Object.keys(kb.get()))
		}
		c.outcome([...bindings(kb.get(), mac).bound])
	}
}

// Many keys, and long ids.
const crowd = {
	name: 'many keys',
	async: true,
	async run(c) {
		const mac = c.bool('mac')
		const via = c.pick('by', ['options', 'one by one', 'all at once', 'commands'])
		const as = c.pick('declared as', ['key', 'mac', 'both'])
		const n = c.pick('number', c.tier === 'thorough' ? [9, 17, 33, 65, 130, 200] : [12, 40, 130])
		if (!c.mine()) return
		const m = c.load()
		const letters = [...'abcdefghijklmnopqrstuvwxyz0123456789']
		const all = ['', 'ctrl+', 'cmd+', 'alt+', 'ctrl+shift+', 'ctrl+alt+'].flatMap(p => letters.map(l => p + l)).slice(0, n + 2)
		const keys = all.slice(0, n)
		const ids = keys.map((_, i) => (i % 10 === 9 ? `${'long.'.repeat(60)}${i}` : `c.${i}`))
		// with both, the other platform has the keys in the opposite order
		const decl = keys.map((k, i) => (as === 'both' ? { id: ids[i], key: keys[mac ? n - 1 - i : i], mac: keys[mac ? i : n - 1 - i] } : as === 'mac' ? { id: ids[i], key: 'f1', mac: k } : { id: ids[i], key: k }))
		if (as === 'mac' && !mac) return
		const calls = []
		const { app, takeLogs } = await makeApp(c, m, mac, via === 'options' ? decl : [])
		const kb = app.keyboard.keyBindingContributions
		c.step(`${n} keys as ${as} by ${via}`)
		if (via === 'commands') decl.forEach(d => m.commands.command(d, (...args) => void calls.push(args.length ? [d.id, args] : d.id)).connect(app))
		else {
			ids.forEach(id => app.commands.handlers.register(id, (...args) => void calls.push(args.length ? [id, args] : id)))
			if (via === 'all at once') kb.add(...decl)
			if (via === 'one by one') decl.forEach(d => kb.add(d))
		}
		const registered = new Set(ids)
		reported(c, takeLogs(), kb.get(), mac, '')
		pressAll(c, m, calls, kb.get(), mac, registered, all, 'with all keys', takeLogs)
		// half of them go, and come back in the opposite order
		const half = ids.filter((_, i) => i % 2)
		kb.set(d => half.forEach(id => delete d[id]))
		pressAll(c, m, calls, kb.get(), mac, registered, all, 'with half of the keys')
		kb.add(...decl.filter((_, i) => i % 2).reverse())
		pressAll(c, m, calls, kb.get(), mac, registered, all, 'with all keys again')
		c.state(mac, via, as, n)
		c.outcome([n, via, as])
	}
}

// Where the focus is: what is typed into a field invokes nothing.
const TARGETS = {
	body: [{ tagName: 'BODY', className: '' }, true],
	div: [{ tagName: 'DIV', className: 'input', isContentEditable: false }, true],
	button: [{ tagName: 'BUTTON', className: '' }, true],
	input: [{ tagName: 'INPUT', className: '' }, false],
	textarea: [{ tagName: 'TEXTAREA', className: 'x mousetraps' }, false],
	select: [{ tagName: 'SELECT', className: '' }, false],
	editable: [{ tagName: 'DIV', className: '', isContentEditable: true }, false]
}
const focus = {
	name: 'where the focus is',
	async: true,
	async run(c) {
		const mac = c.bool('mac')
		const key = c.pick('key', ['a', 'ctrl+a', 'shift+a', 'esc', 'g i', '?'])
		const list = [c.pick('at', Object.keys(TARGETS)), c.pick('then at', Object.keys(TARGETS))]
		const m = c.load()
		const { app } = await makeApp(c, m, mac, [{ id: 'one', key }])
		const calls = []
		app.commands.handlers.register('one', (...args) => void calls.push(['one', ...args]))
		for (const at of list) {
			const [target, invokes] = TARGETS[at]
			c.step(`${key} at ${at}`)
			const prevented = press(c, m, key, { ...target, parentNode: null })
			c.eq(calls.splice(0), invokes ? [['one']] : [], `commands invoked by ${key} with the focus at ${at}`)
			c.is(prevented > 0, invokes, `${key} with the focus at ${at}: default prevented`)
			c.state(mac, key, at)
		}
		c.outcome([key, list])
	}
}

export default {
	property: 'C21',
	entries,
	scenarios: [histories, pairsOf('every pair of keys', COMBOS, ['key', 'mac', 'both']), pairsOf('letters in both cases', LETTERS, ['key', 'mac', 'both', 'none on a Mac']), pairsOf('spellings of a key', SPELLINGS, ['key', 'both']), apart, nested, focus, crowd],
	assumptions: [
		'key events as sent by Chrome on a US keyboard',
		'a key which is the beginning of a bound sequence is not bound by itself; ids are not numbers',
		'which of two apps on one page gets a key that both bind is not specified'
	]
}
