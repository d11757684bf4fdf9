// C23: the chosen language survives restarts, per app, until it is cleared.
import { name } from './_large.mjs'
import { createEnv, createStorage } from '../lib/env.mjs'
import { show } from '../lib/values.mjs'

const entries = {
	app: ['@just-web/app', 'justApp', 'define', 'createMemoryLogReporter'],
	appT: ['@just-web/app/testing', 'justTestApp'],
	commands: ['@just-web/commands', 'command', 'commandsGizmoFn'],
	keyboard: ['@just-web/keyboard', 'keyboardGizmoFn'],
	i18n: ['@just-web/i18n', 'i18nGizmoFn', 'setLanguageCommand'],
	browser: ['@just-web/browser', 'browserGizmoFn'],
	browserT: ['@just-web/browser/testing', 'browserTestGizmoFn', 'stubStorage'],
	bprefs: ['@just-web/browser-preferences', 'browserPreferencesGizmo'],
	bi18n: ['@just-web/browser-i18n', 'browserI18nGizmo']
}
const ID = '@just-web/i18n/set-language'
const FOREIGN = { language: 'xx', 'n:language': 'eHg=', '@just-web/browser-i18n': 'xx', '@just-web/browser-i18n/language': 'xx', '@just-web/browser-i18n/other/language': 'yy', '@just-web/i18n/n/language': 'zz', other: '' }

const KINDS = ['page', 'page, commands', 'given', 'given, commands']
/** A page: the app(s) on it, with a given or the page's storage and navigator. */
function open(c, kind, local, navigator) {
	// the storage is the page's, or one given to the app (the page then has another one)
	const page = kind.startsWith('page')
	const env = createEnv(page ? { local, navigator } : { language: 'not this' })
	const m = c.load({ page: env })
	return {
		m,
		env,
		async app(name) {
			let b = m.appT.justTestApp({ name })
			if (kind.includes('commands')) b = b.with(m.commands.commandsGizmoFn())
			b = b.with(page ? m.browser.browserGizmoFn() : m.browserT.browserTestGizmoFn({ localStorage: local.storage, navigator }))
			return b.with(m.bi18n.browserI18nGizmo).create()
		}
	}
}
const nav = l => ({ language: l, userAgent: 'x', platform: 'Linux' })
const foreign = (c, local, model, what) => {
	for (const [k, v] of Object.entries(model)) c.is(local.ctl.map.has(k) ? local.ctl.map.get(k) : undefined, v, `foreign entry ${show(k)} ${what}`)
}

const NAMES = [['n', 'nn'], ['n', 'n/language'], ['', 'language'], ['constructor', '__proto__'], ['@just-web/browser-i18n', 'browser-i18n'], ['A', 'a']]
function histories(name, depth, cfg) {
	return {
		name,
		async: true,
		depth,
		async run(c) {
			const kind = c.pick('kind', cfg.kinds)
			const names = c.pick('names', cfg.names(c))
			const local = createStorage({ ...FOREIGN })
			let navigator = nav('nav0')
			let page = open(c, kind, local, navigator)
			const chosen = [undefined, undefined]
			const current = ['nav0', 'nav0']
			const start = async () => [await page.app(names[0]), await page.app(names[1])]
			let apps = await start()
			let heard = [[], []]
			const listen = () => apps.forEach((a, i) => a.i18n.languageChanged((n, p) => heard[i].push([n, p])))
			listen()
			const menu = ['choose', 'choose again', 'choose the browser language', 'clear', 'restart', 'browser language', 'restart with another browser language']
			if (kind.includes('commands')) menu.push('choose by handler')
			c.note(`${kind} ${show(names)}`)
			const check = what => {
				apps.forEach((a, i) => c.is(a.i18n.getLanguage(), current[i], `language of ${show(names[i])} ${what}`))
				foreign(c, local, FOREIGN, what)
				c.eq(local.ctl.map.size - Object.keys(FOREIGN).length, chosen.filter(x => x !== undefined).length, `entries of the storage ${what}`)
				if (!kind.startsWith('page')) c.eq([...page.env.ctl.local.ctl.map], [], 'storage of the page')
			}
			check('at first')
			for (let i = 0; i < c.depth; i++) {
				const op = c.pick('op', menu)
				const perApp = op.startsWith('choose') || op === 'clear'
				const a = perApp ? c.choose('app', 2) : 0
				c.step(perApp ? `${op} by ${show(names[a])}` : op)
				const to = { choose: `l${i}`, 'choose again': 'l', 'choose the browser language': navigator.language, 'choose by handler': '' }[op]
				if (perApp) {
					heard = [[], []]
					const before = current[a]
					if (op === 'clear') {
						apps[a].i18n.clearLanguage()
						chosen[a] = undefined
						current[a] = navigator.language
					} else {
						if (op === 'choose by handler') apps[a].commands.handlers.invoke(ID, to)
						else apps[a].i18n.setLanguage(to)
						chosen[a] = to
						current[a] = to
					}
					c.eq(heard[1 - a], [], 'listener of the other app')
					if (!Object.is(before, current[a])) c.eq(heard[a], [[current[a], before]], 'listener of the app')
				} else if (op === 'browser language') {
					navigator.language = `nav${i + 1}`
				} else {
					if (op !== 'restart') navigator = nav(`nav${i + 1}`)
					page = open(c, kind, local, navigator)
					apps = await start()
					listen()
					names.forEach((_, j) => (current[j] = chosen[j] ?? navigator.language))
				}
				check(`after ${op}`)
				c.state(kind, names, chosen, current, navigator.language)
			}
			c.outcome([chosen, current])
		}
	}
}

// The page dies at any access to the storage: the language at the next start is the one before or after the operation.
const crashes = {
	name: 'the page dying at any access to the storage',
	async: true,
	async run(c) {
		const kind = c.pick('kind', KINDS)
		const before = c.pick('before', [undefined, 'fr', 'nav', ''])
		const op = c.pick('op', ['choose', 'clear', 'choose, clear', 'clear, choose', 'choose, choose'])
		const at = c.choose('dies at access', 8)
		const local = createStorage({ ...FOREIGN })
		const navigator = nav('nav')
		let app = await open(c, kind, local, navigator).app('n')
		if (before !== undefined) app.i18n.setLanguage(before)
		const states = [before]
		let n = 0
		let died = false
		const death = new Error('the page dies')
		local.ctl.before = () => {
			if (died || n++ === at) {
				died = true
				throw death
			}
		}
		c.step(`${kind}: ${op}, before ${show(before)}, dies at ${at}`)
		for (const [i, o] of op.split(', ').entries()) {
			states.push(o === 'clear' ? undefined : `l${i}`)
			const r = c.attempt(() => (o === 'clear' ? app.i18n.clearLanguage() : app.i18n.setLanguage(`l${i}`)))
			if (r.threw && !died) throw r.error
			if (died) break
		}
		local.ctl.before = undefined
		const allowed = died ? states.slice(-2) : states.slice(-1)
		app = await open(c, kind, local, navigator).app('n')
		const l = app.i18n.getLanguage()
		c.ok(allowed.some(s => (s ?? 'nav') === l), () => `language ${show(l)} after the restart, allowed: ${show(allowed.map(s => s ?? 'nav'))}`)
		foreign(c, local, FOREIGN, 'after the crash')
		// and everything works again
		app.i18n.setLanguage('de')
		app = await open(c, kind, local, navigator).app('n')
		c.is(app.i18n.getLanguage(), 'de', 'language chosen after the crash')
		app.i18n.clearLanguage()
		app = await open(c, kind, local, nav('new')).app('n')
		c.is(app.i18n.getLanguage(), 'new', 'language after clearing')
		c.state(kind, before, op, at)
		c.outcome([died, l])
	}
}

// Apps of the same name share the choice (at their start); preferences are kept apart from it.
const sharing = {
	name: 'apps of the same name, and preferences',
	async: true,
	async run(c) {
		const kind = c.pick('kind', ['page, commands', 'given, commands'])
		const ops = [0, 1, 2].map(() => c.pick('op', ['choose', 'clear', 'preference', 'clear preferences', 'none']))
		const local = createStorage({ ...FOREIGN })
		const navigator = nav('nav')
		const withPrefs = async () => {
			const p = open(c, kind, local, navigator)
			let b = p.m.appT.justTestApp({ name: 'p' }).with(p.m.commands.commandsGizmoFn())
			b = b.with(kind.startsWith('page') ? p.m.browser.browserGizmoFn() : p.m.browserT.browserTestGizmoFn({ localStorage: local.storage, navigator }))
			return b.with(p.m.bprefs.browserPreferencesGizmo).with(p.m.bi18n.browserI18nGizmo).create()
		}
		const app = await withPrefs()
		let chosen
		let pref
		ops.forEach((op, i) => {
			c.step(op)
			if (op === 'choose') app.i18n.setLanguage((chosen = `l${i}`))
			if (op === 'clear') {
				app.i18n.clearLanguage()
				chosen = undefined
			}
			if (op === 'preference') app.preferences.set('language', (pref = `p${i}`))
			if (op === 'clear preferences') {
				app.preferences.clearAll()
				pref = undefined
			}
			c.is(app.preferences.get('language'), pref, 'preference')
			c.is(app.i18n.getLanguage(), chosen ?? 'nav', 'language')
		})
		const second = await withPrefs()
		c.is(second.i18n.getLanguage(), chosen ?? 'nav', 'language of an app of the same name')
		c.is(second.preferences.get('language'), pref, 'preference of an app of the same name')
		foreign(c, local, FOREIGN, '')
		c.state(kind, chosen, pref)
		c.outcome([chosen, pref])
	}
}

// A listener which chooses another language itself: what survives is the language which was chosen last.
const nested = {
	name: 'choosing a language while hearing of another one',
	async: true,
	async run(c) {
		const kind = c.pick('kind', KINDS)
		const way = c.pick('chosen by', kind.includes('commands') ? ['the app', 'the handler'] : ['the app'])
		const inner = c.pick('listener', ['chooses another one', 'chooses the previous one', 'clears', 'chooses twice'])
		const before = c.pick('before', [undefined, 'fr'])
		const local = createStorage({ ...FOREIGN })
		let navigator = nav('nav')
		let app = await open(c, kind, local, navigator).app('n')
		if (before) app.i18n.setLanguage(before)
		let chosen = before
		let once = false
		app.i18n.languageChanged((n, p) => {
			if (n !== 'de' || once) return
			once = true
			if (inner === 'clears') {
				app.i18n.clearLanguage()
				chosen = undefined
				return
			}
			if (inner === 'chooses twice') app.i18n.setLanguage('it')
			app.i18n.setLanguage((chosen = inner === 'chooses the previous one' ? p : 'es'))
		})
		c.step(`${kind}: before ${show(before)}, a listener ${inner}`)
		if (way === 'the app') app.i18n.setLanguage('de')
		else app.commands.handlers.invoke(ID, 'de')
		c.ok(once, 'the listener is told')
		c.is(app.i18n.getLanguage(), chosen ?? 'nav', 'language')
		navigator = nav('nav2')
		app = await open(c, kind, local, navigator).app('n')
		c.is(app.i18n.getLanguage(), chosen ?? 'nav2', 'language after the restart')
		foreign(c, local, FOREIGN, '')
		c.state(kind, way, inner, before)
		c.outcome([chosen])
	}
}

// Long names of languages and apps, many choices and restarts.
const large = {
	name: 'long names, many choices',
	async: true,
	async run(c) {
		const kind = c.pick('kind', KINDS)
		const length = c.pick('length', [1, 60, 3000])
		const n = c.pick('choices', [3, 40])
		const names = [name(length, 'na'), name(length, 'nb')]
		const local = createStorage({ ...FOREIGN })
		const navigator = nav('nav')
		const start = async () => {
			const p = open(c, kind, local, navigator)
			return [await p.app(names[0]), await p.app(names[1])]
		}
		let apps = await start()
		const chosen = []
		c.step(`names of length ${length}`)
		for (let i = 0; i < n; i++) {
			apps[i % 2].i18n.setLanguage((chosen[i % 2] = name(length, `l${i}`)))
			if (i % 10 === 1) apps = await start()
			apps.forEach((a, j) => c.is(a.i18n.getLanguage(), chosen[j] ?? 'nav', `language of app ${j}`))
		}
		apps[0].i18n.clearLanguage()
		apps = await start()
		apps.forEach((a, j) => c.is(a.i18n.getLanguage(), j ? chosen[1] : 'nav', `language of app ${j} at the end`))
		foreign(c, local, FOREIGN, '')
		c.state(kind, length, n)
	}
}

export default {
	property: 'C23',
	entries,
	scenarios: [
		histories('choosing, clearing, restarting', { quick: 4, thorough: 5 }, { kinds: ['page', 'given, commands'], names: () => NAMES.slice(0, 1) }),
		histories('names and kinds', { quick: 2, thorough: 4 }, { kinds: KINDS, names: () => NAMES }),
		crashes,
		sharing,
		nested,
		large
	],
	assumptions: ['a page dying while the language is being cleared is restarted with the same language of the browser']
}
