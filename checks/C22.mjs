// C22: the current language is the last one set, and every listener is told in order.
import { counts, name } from './_large.mjs'
import { sparse } from '../lib/explore.mjs'
import { show } from '../lib/values.mjs'

const entries = {
	app: ['@just-web/app', 'justApp', 'define', 'createMemoryLogReporter'],
	appT: ['@just-web/app/testing', 'justTestApp'],
	commands: ['@just-web/commands', 'command', 'commandsGizmoFn'],
	keyboard: ['@just-web/keyboard', 'keyboardGizmoFn'],
	i18n: ['@just-web/i18n', 'i18nGizmoFn', 'setLanguageCommand'],
	browserT: ['@just-web/browser/testing', 'browserTestGizmoFn', 'stubStorage'],
	bi18n: ['@just-web/browser-i18n', 'browserI18nGizmo']
}
const ID = '@just-web/i18n/set-language'

const KINDS = ['none', 'commands', 'commands and keyboard', 'keyboard', 'browser', 'browser, commands']
async function make(m, kind, language, name = 'n') {
	const reporter = m.app.createMemoryLogReporter({ id: 'mem' })
	let b = m.appT.justTestApp({ name, log: { reporters: [reporter] } })
	if (kind.includes('keyboard')) b = b.with(m.keyboard.keyboardGizmoFn())
	if (kind.includes('commands')) b = b.with(m.commands.commandsGizmoFn())
	if (kind.startsWith('browser')) b = b.with(m.browserT.browserTestGizmoFn({ localStorage: m.browserT.stubStorage(), navigator: { language } })).with(m.bi18n.browserI18nGizmo)
	else b = b.with(m.i18n.i18nGizmoFn({ language }))
	return { app: await b.create(), reporter }
}

const LANGUAGES = ['fr', 'en', '', 'zh-Hant-TW', 'EN', 'en_US', ' fr']
function ways(kind) {
	return ['app', 'detached', ...(kind.includes('commands') ? ['command', 'handler'] : [])]
}
function setter(m, app, how) {
	switch (how) {
		case 'app':
			return l => app.i18n.setLanguage(l)
		case 'detached': {
			const { setLanguage } = app.i18n
			return l => setLanguage(l)
		}
		case 'command':
			return l => m.i18n.setLanguageCommand(l)
		case 'handler':
			return l => app.commands.handlers.invoke(ID, l)
	}
}

function historiesOf(name, depth, cfg) {
	return {
		name,
		async: true,
		depth,
		async run(c) {
			const kind = c.pick('kind', cfg.kinds(c))
			const initial = c.pick('initially', cfg.initial)
			const m = c.load()
			const { app, reporter } = await make(m, kind, initial)
			let current = initial
			const calls = []
			const listeners = []
			const late = []
			c.is(app.i18n.getLanguage(), initial, 'language at first')
			c.note(kind)
			const menu = []
			for (const how of ways(kind)) for (const l of cfg.languages) menu.push([how, l])
			if (cfg.listeners) menu.push(['listen'])
			for (let i = 0; i < c.depth; i++) {
				const [how, l] = menu[c.choose('op', menu.length)]
				if (how === 'listen') {
					const tag = listeners.length
					c.step(`listen ${tag}`)
					listeners.push(tag)
					const acts = cfg.acting ? c.pick('listener', ['plain', 'adds a listener']) : 'plain'
					let added = false
					app.i18n.languageChanged((next, prev, ...more) => {
						calls.push([tag, next, prev])
						c.eq(more, [], 'further arguments of a listener')
						if (c.looks === undefined) c.is(app.i18n.getLanguage(), next, `language read by listener ${tag}`)
						if (acts !== 'plain' && !added) {
							added = true
							const t = `${tag}+`
							app.i18n.languageChanged((next, prev) => calls.push([t, next, prev]))
							late.push(t)
						}
					})
					continue
				}
				c.step(`${how}: ${show(l)}`)
				setter(m, app, how)(l)
				// a listener registered while the others are told may be told at once or not
				const got = calls.splice(0)
				const expected = listeners.map(t => [t, l, current])
				const mayBe = late.splice(0)
				if (Object.is(l, current)) c.ok(got.length === 0 || show(got) === show(expected) || mayBe.length > 0, () => `listeners told at setting the same language: ${show(got)}`)
				else c.eq(got.filter(x => !mayBe.includes(x[0])), expected, 'listeners told')
				listeners.push(...mayBe)
				current = l
				if (c.look(i)) c.is(app.i18n.getLanguage(), current, 'language')
				c.state(kind, current, listeners)
			}
			if (kind.includes('commands')) {
				c.ok(app.commands.handlers.has(ID), 'the language command has a handler')
				c.eq(reporter.logs.filter(e => e.level <= 500).map(e => show(e.args)), [], 'errors and warnings logged')
			}
			c.eq(m.page.console.filter(x => x[0] === 'error').length, 0, 'errors on the console')
			c.outcome([current, listeners])
		}
	}
}
// Two apps, each with its language: the handlers of an app change the language of that app.
const two = {
	name: 'two apps',
	async: true,
	depth: { quick: 4, thorough: 5 },
	async run(c) {
		const kinds = c.pick('kinds', [
			['commands', 'commands'],
			['commands', 'none'],
			['none', 'commands and keyboard'],
			['browser, commands', 'browser, commands']
		])
		const m = c.load()
		const apps = []
		const current = ['en', 'de']
		const calls = [[], []]
		for (const i of [0, 1]) {
			const { app } = await make(m, kinds[i], current[i], 'AB'[i])
			apps.push(app)
			app.i18n.languageChanged((n, p) => calls[i].push([n, p]))
		}
		for (let i = 0; i < c.depth; i++) {
			const a = c.choose('app', 2)
			const menu = ways(kinds[a]).filter(h => h !== 'command')
			const how = c.pick('how', menu)
			const l = `l${i}`
			c.step(`${'AB'[a]} ${how} ${l}`)
			setter(m, apps[a], how)(l)
			c.eq(calls[a].splice(0), [[l, current[a]]], 'listener told')
			c.eq(calls[1 - a], [], 'listener of the other app told')
			current[a] = l
			c.eq(apps.map(x => x.i18n.getLanguage()), current, 'languages')
			c.state(kinds, current)
		}
		c.outcome(current)
	}
}

// Few or many listeners, one listening twice; one which throws, or sets another language, once.
const who = {
	name: 'who listens',
	async: true,
	async run(c) {
		const kind = c.pick('kind', ['none', 'commands', 'browser'])
		const n = c.pick('listeners', [1, 2, 3, 17, 101])
		const at = c.pick('the special one', [...new Set([0, 1, n >> 1, n - 1])].filter(i => i < n))
		const what = c.pick('which', ['is like the others', 'listens twice', 'throws', 'sets a language', 'sets the previous language', 'sets the same language'])
		const m = c.load()
		const { app } = await make(m, kind, 'en')
		const calls = []
		const error = new Error('listener')
		const sets = [] // changes made: [new, old]
		const set = l => {
			sets.push([l, app.i18n.getLanguage()])
			app.i18n.setLanguage(l)
		}
		let once = true
		for (let i = 0; i < n; i++) {
			const f = (next, prev) => {
				calls.push([i, next, prev])
				if (i !== at || !once) return
				once = what === 'throws'
				if (what === 'throws') throw error
				if (what === 'sets a language') set('x')
				if (what === 'sets the previous language') set(prev)
				if (what === 'sets the same language') set(next)
			}
			app.i18n.languageChanged(f)
			if (what === 'listens twice' && i === at) app.i18n.languageChanged(f)
		}
		for (const l of ['fr', 'de', 'es']) {
			sets.length = 0
			c.step(`set ${l}, listener ${at} of ${n} ${what}`)
			const r = c.attempt(() => set(l))
			const got = calls.splice(0)
			const told = sets.filter(([a, b]) => a !== b)
			c.is(app.i18n.getLanguage(), sets.at(-1)[0], 'language')
			if (what === 'throws') {
				c.ok(r.threw ? r.error === error : m.page.console.some(x => x[0] === 'error'), 'the error of the listener is lost')
				c.eq(got.slice(0, at + 1), Array.from({ length: at + 1 }, (_, i) => [i, l, sets[0][1]]), 'listeners told before the failing one, and that one')
				c.state(kind, n, at, what, l)
				continue
			}
			c.is(r.threw, false, () => `setLanguage() throws ${show(r.error)}`)
			for (let i = 0; i < n; i++) {
				const mine = got.filter(x => x[0] === i && x[1] !== x[2])
				// a function registered twice is one listener, or two
				const twice = what === 'listens twice' && i === at
				c.eq(new Set(mine.map(x => show(x.slice(1)))), new Set(told.map(x => show(x))), `changes told to listener ${i}`)
				c.ok(mine.length === told.length || (twice && mine.length === 2 * told.length), () => `listener ${i} told ${mine.length} times of ${told.length} changes`)
			}
			if (told.length === 1) c.eq([...new Set(got.map(x => x[0]))], Array.from({ length: n }, (_, i) => i), 'order of the listeners told')
			c.state(kind, n, at, what, l)
		}
		c.outcome([n, at, what])
	}
}

// Many changes, and long names of languages.
const large = {
	name: 'many changes',
	async: true,
	async run(c) {
		const kind = c.pick('kind', KINDS)
		const n = c.pick('changes', counts(c))
		const length = c.pick('length', [1, 60, 3000])
		const m = c.load()
		const { app } = await make(m, kind, 'en')
		const told = []
		app.i18n.languageChanged((l, p) => told.push([l, p, app.i18n.getLanguage()]))
		c.step(`${n} changes`)
		let prev = 'en'
		for (let i = 0; i < n; i++) {
			const l = name(length, `l${i}`)
			app.i18n.setLanguage(l)
			c.eq(told.splice(0), [[l, prev, l]], `told of change ${i}`)
			prev = l
		}
		c.is(app.i18n.getLanguage(), prev, 'language')
		c.state(kind, n, length)
	}
}

export default {
	property: 'C22',
	entries,
	scenarios: [
		historiesOf('every language, kind and way', { quick: 2, thorough: 3 }, { kinds: () => KINDS, initial: ['en', '', 'fr'], languages: LANGUAGES, listeners: true }),
		historiesOf('histories', { quick: 5, thorough: 7 }, { kinds: () => ['none', 'commands and keyboard', 'browser, commands'], initial: ['en'], languages: ['fr', 'en'], listeners: true }),
		sparse(historiesOf('longer histories', {}, { kinds: () => ['none', 'commands and keyboard', 'browser, commands'], initial: ['en'], languages: ['fr', 'en'], listeners: true }), { quick: 4, thorough: 5 }),
		historiesOf('listeners adding listeners', { quick: 4, thorough: 5 }, { kinds: () => ['none', 'commands'], initial: ['en'], languages: ['fr', 'de'], listeners: true, acting: true }),
		two,
		who,
		large
	],
	assumptions: [
		'setting the language which is already current may notify or not',
		'a function registered twice may be told once or twice',
		'who hears of a change after a listener which throws, and in which order nested changes are told, is not checked',
		'the shared command setLanguageCommand follows the app connected last'
	]
}
