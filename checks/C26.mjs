// C26: platform services of an app are the supplied ones, else those of an earlier gizmo, else those of the page.
import { show } from '../lib/values.mjs'

const entries = {
	app: ['@just-web/app', 'justApp', 'define', 'incubate'],
	appT: ['@just-web/app/testing', 'justTestApp'],
	commands: ['@just-web/commands', 'commandsGizmoFn'],
	browser: ['@just-web/browser', 'browserGizmoFn'],
	browserT: ['@just-web/browser/testing', 'browserTestGizmoFn', 'stubStorage'],
	fetch: ['@just-web/fetch', 'fetchGizmo'],
	fetchT: ['@just-web/fetch/testing', 'fetchTestGizmoFn'],
	history: ['@just-web/history', 'historyGizmoFn'],
	historyT: ['@just-web/history/testing', 'createMemoryHistory'],
	formatjs: ['@just-web/formatjs', 'formatJSGizmoFn', 'createIntl', 'createIntlCache'],
	presets: ['@just-web/presets-browser', 'presetsBrowserGizmoFn'],
	presetsT: ['@just-web/presets-browser/testing', 'presetsBrowserTestGizmoFn']
}
const base = (m, test) => (test ? m.appT.justTestApp({ name: 'x' }) : m.app.justApp({ name: 'x' }))

/** A fetch recording its calls; every one answers something of its own. */
function recorder(name) {
	const calls = []
	return {
		name,
		calls,
		fetch: async function (...args) {
			calls.push([this, args])
			return { from: name, args }
		},
		failing: false
	}
}

const EARLIER = ['none', 'fetchGizmo', 'fetchTestGizmo', 'fetchTestGizmo with fetch', 'fetchTestGizmo with undefined', 'own gizmo', 'own gizmo twice']
const KINDS = ['browser', 'browser test', 'preset', 'preset test']
const OPTION = ['no options', 'no fetch', 'undefined', 'fetch']
const LATER = ['none', 'fetchGizmo', 'fetchTestGizmo with fetch', 'browser', 'browser with fetch', 'browser test']

/** Calls the fetch of an app in the ways it can be called: exactly the expected one receives it. */
async function useFetch(c, app, page, recorders, expected, what) {
	const ways = {
		'as a member': (...a) => app.fetch(...a),
		detached: (...a) => {
			const { fetch } = app
			return fetch(...a)
		}
	}
	for (const way of Object.keys(ways))
		for (const args of [['/a'], [new URL('http://x/'), { method: 'POST', body: 'b' }]]) {
			const before = recorders.map(r => r.calls.length)
			const n = page.fetches.length
			const r = await ways[way](...args)
			recorders.forEach((x, i) => c.eq(x.calls.length - before[i], x === expected ? 1 : 0, `${what}: calls of the ${x.name} fetch ${way}`))
			c.eq(page.fetches.length - n, expected === undefined ? 1 : 0, `${what}: calls of the fetch of the page ${way}`)
			const got = expected ? expected.calls.at(-1)[1] : page.fetches.at(-1)
			c.eq(got.length, args.length, `${what}: number of arguments of fetch ${way}`)
			args.forEach((a, i) => c.is(got[i], a, `${what}: argument ${i} of fetch ${way}`))
			c.is(r.args, got, `${what}: answer of fetch ${way}`)
		}
}

const fetching = {
	name: 'fetch',
	async: true,
	async run(c) {
		const kind = c.pick('kind', KINDS)
		const earlier = c.pick('earlier', EARLIER)
		const option = c.pick('option', OPTION)
		const later = c.pick('later', LATER)
		const test = c.bool('test app')
		c.step(`${test ? 'test ' : ''}app, earlier: ${earlier}, ${kind} with ${option}, later: ${later}`)
		const m = c.load()
		const R = Object.fromEntries(['earlier', 'earliest', 'option', 'later'].map(n => [n, recorder(n)]))
		let b = base(m, test).with(m.commands.commandsGizmoFn())
		let expected
		const own = r => m.app.define({ create: async () => ({ fetch: r.fetch }) })
		switch (earlier) {
			case 'fetchGizmo':
				b = b.with(m.fetch.fetchGizmo)
				break
			case 'fetchTestGizmo':
				b = b.with(m.fetchT.fetchTestGizmoFn())
				break
			case 'fetchTestGizmo with undefined':
				b = b.with(m.fetchT.fetchTestGizmoFn({ fetch: undefined }))
				break
			case 'fetchTestGizmo with fetch':
				b = b.with(m.fetchT.fetchTestGizmoFn({ fetch: R.earlier.fetch }))
				expected = R.earlier
				break
			case 'own gizmo twice':
				b = b.with(own(R.earliest))
			// falls through
			case 'own gizmo':
				b = b.with(own(R.earlier))
				expected = R.earlier
		}
		const o = option === 'no options' ? undefined : option === 'no fetch' ? {} : { fetch: option === 'fetch' ? R.option.fetch : undefined }
		if (option === 'fetch') expected = R.option
		switch (kind) {
			case 'browser':
				b = b.with(m.browser.browserGizmoFn(o))
				break
			case 'browser test':
				b = b.with(m.browserT.browserTestGizmoFn(o))
				break
			case 'preset':
				b = b.with(m.presets.presetsBrowserGizmoFn(o && { browser: o }))
				break
			case 'preset test':
				b = b.with(m.presetsT.presetsBrowserTestGizmoFn(o && { browser: o }))
		}
		let between
		b = b.with(m.app.define({ create: async ctx => ((between = ctx.fetch), {}) }))
		switch (later) {
			case 'fetchGizmo':
				b = b.with(m.fetch.fetchGizmo)
				break
			case 'fetchTestGizmo with fetch':
				b = b.with(m.fetchT.fetchTestGizmoFn({ fetch: R.later.fetch }))
				break
			case 'browser':
				b = b.with(m.browser.browserGizmoFn())
				break
			case 'browser with fetch':
				b = b.with(m.browser.browserGizmoFn({ fetch: R.later.fetch }))
				break
			case 'browser test':
				b = b.with(m.browserT.browserTestGizmoFn({}))
		}
		const app = await b.create()
		const last = later.endsWith('with fetch') ? R.later : later === 'fetchGizmo' ? undefined : expected
		const all = Object.values(R)
		c.eq(all.map(r => r.calls.length).concat(m.page.fetches.length), [0, 0, 0, 0, 0], 'fetches made while creating the app')
		await useFetch(c, app, m.page, all, last, 'app.fetch')
		await useFetch(c, { fetch: between }, m.page, all, expected, 'fetch seen by the gizmo after')
		c.outcome([last?.name, expected?.name])
		c.state(kind, earlier, option, later, test)
	}
}

/** Services of the browser gizmos: every subset supplied. */
const STUBS = ['sessionStorage', 'localStorage', 'navigator', 'location', 'fetch']
const services = {
	name: 'storages, navigator and location',
	async: true,
	async run(c) {
		const kind = c.pick('kind', KINDS)
		const given = {}
		for (const s of STUBS) given[s] = kind.includes('test') ? c.pick(s, ['absent', 'undefined', 'supplied', 'supplied as the other one']) : 'absent'
		const earlier = c.bool('earlier browser gizmo with all stubs')
		c.step(`${kind}, earlier browser gizmo: ${earlier}, ${show(given)}`)
		const m = c.load()
		const { env } = m.env
		const stubs = {}
		const fetches = recorder('supplied')
		const make = s => {
			switch (s) {
				case 'sessionStorage':
				case 'localStorage':
					return m.browserT.stubStorage()
				case 'navigator':
					return { language: 'fr', onLine: false }
				case 'location':
					return { href: 'http://y/' }
				default:
					return fetches.fetch
			}
		}
		const o = {}
		for (const s of STUBS) {
			if (given[s] === 'undefined') o[s] = undefined
			else if (given[s] === 'supplied') o[s] = stubs[s] = make(s)
			else if (given[s] === 'supplied as the other one') {
				// what another service of the page (or an empty stub) is: still exactly what was supplied
				o[s] = stubs[s] =
					s === 'sessionStorage' ? env.localStorage : s === 'localStorage' ? env.sessionStorage : s === 'fetch' ? fetches.fetch : {}
			}
		}
		let b = m.appT.justTestApp({ name: 'x' }).with(m.commands.commandsGizmoFn())
		if (earlier) {
			const all = {}
			for (const s of STUBS) if (s !== 'fetch') all[s] = make(s)
			b = b.with(m.browserT.browserTestGizmoFn(all))
		}
		const copy = { ...o }
		switch (kind) {
			case 'browser':
				b = b.with(m.browser.browserGizmoFn(o))
				break
			case 'browser test':
				b = b.with(m.browserT.browserTestGizmoFn(o))
				break
			case 'preset':
				b = b.with(m.presets.presetsBrowserGizmoFn({ browser: o }))
				break
			case 'preset test':
				b = b.with(m.presetsT.presetsBrowserTestGizmoFn({ browser: o }))
		}
		const app = await b.create()
		for (const s of STUBS.slice(0, 4)) c.is(app.browser[s], stubs[s] ?? env[s], `app.browser.${s}`)
		await app.fetch('/z')
		c.eq([fetches.calls.length, m.page.fetches.length], stubs.fetch ? [1, 0] : [0, 1], 'fetches supplied and of the page')
		c.eq(app.browser.errors.get(), [], 'errors')
		c.eq(Object.keys(o), Object.keys(copy), 'options after')
		for (const s of Object.keys(o)) c.is(o[s], copy[s], `option ${s} after`)
		// using a storage reaches exactly that storage
		const storages = { page_session: env.sessionStorage, page_local: env.localStorage }
		for (const s of ['sessionStorage', 'localStorage']) if (stubs[s]) storages[`stub_${s}`] = stubs[s]
		for (const s of ['sessionStorage', 'localStorage']) {
			const key = `k-${s}`
			app.browser[s].setItem(key, 'v')
			for (const n of Object.keys(storages))
				c.is(storages[n].getItem(key), storages[n] === (stubs[s] ?? env[s]) ? 'v' : null, `${n} after setting in ${s}`)
			app.browser[s].removeItem(key)
		}
		c.state(kind, given, earlier)
		c.outcome(STUBS.map(s => !!stubs[s]))
	}
}

const HISTORIES = ['no options', 'undefined', 'memory', 'memory elsewhere', 'own object']
const histories = {
	name: 'history',
	async: true,
	async run(c) {
		const kind = c.pick('kind', ['history', 'preset', 'preset test'])
		const option = c.pick('option', HISTORIES)
		const earlier = c.pick('earlier', ['none', 'memory', 'browser'])
		const n = c.pick('moves', [0, 1, 2, 3])
		const m = c.load()
		const memory = m.historyT.createMemoryHistory(option === 'memory elsewhere' ? { initialEntries: ['/a', '/b'], initialIndex: 1 } : undefined)
		const own = { push() {}, location: { pathname: '/own' } }
		const given = option.startsWith('memory') ? memory : option === 'own object' ? own : undefined
		const o = option === 'no options' ? undefined : { history: given }
		c.step(`${kind} with history ${option}, earlier ${earlier}, ${n} moves`)
		let b = m.appT.justTestApp({ name: 'x' }).with(m.commands.commandsGizmoFn())
		const before = m.historyT.createMemoryHistory()
		if (earlier !== 'none') b = b.with(m.history.historyGizmoFn(earlier === 'memory' ? { history: before } : undefined))
		const gizmo = () =>
			kind === 'history'
				? m.history.historyGizmoFn(o)
				: kind === 'preset'
					? m.presets.presetsBrowserGizmoFn(option === 'no options' ? undefined : { history: o })
					: m.presetsT.presetsBrowserTestGizmoFn(option === 'no options' ? undefined : { history: o })
		const app = await b.with(gizmo()).create()
		const { history } = app
		c.ok(history !== before, 'history of the app is the one of the earlier gizmo')
		if (given) c.is(history, given, 'history of the app')
		if (given === own) return c.state(kind, option, earlier)
		// every page history move goes through window.history; a memory history leaves it alone
		const pushed = []
		const { history: h } = m.env.env
		const real = h.pushState
		h.pushState = (...a) => {
			pushed.push(a[2])
			return real(...a)
		}
		for (let i = 0; i < n; i++) history.push(`/p${i}`)
		const usesPage = !given && !(kind === 'preset test' && option === 'no options')
		c.eq(pushed, usesPage ? Array.from({ length: n }, (_, i) => `/p${i}`) : [], 'moves reaching the page')
		if (!usesPage) c.is(history.location.pathname, n ? `/p${n - 1}` : option === 'memory elsewhere' ? '/b' : '/', 'location of the history')
		c.is(before.location.pathname, '/', 'location of the earlier history')
		// another app does not share a default history
		const other = await m.appT.justTestApp({ name: 'y' }).with(m.commands.commandsGizmoFn()).with(gizmo()).create()
		c.is(other.history === history, !!given, 'history shared by two apps')
		c.state(kind, option, earlier, n)
		c.outcome([usesPage, n])
	}
}

const MESSAGES = { hi: 'Hi {name}', n: '{n, plural, one {one item} other {# items}}', plain: 'plain', empty: '' }
const WHEN = new Date(0)
const CONFIGS = {
	ordinary: { defaultLocale: 'en' },
	'default locale left out': {},
	'another default locale': { defaultLocale: 'ja' },
	'time zone and formats': { defaultLocale: 'en', timeZone: 'Asia/Tokyo', formats: { date: { y: { year: '2-digit' } }, number: { p: { style: 'percent' } } }, defaultFormats: { date: { y: { year: 'numeric' } } } },
	'text parts': { defaultRichTextElements: { b: chunks => `*${chunks.join('')}*` }, fallbackOnEmptyString: false },
	frozen: { defaultLocale: 'en' }
}
/** Everything a formatter is used for. */
const USES = {
	defaultLocale: i => i.defaultLocale,
	timeZone: i => i.timeZone,
	formats: i => [i.formats, i.defaultFormats],
	date: i => [i.formatDate(WHEN), i.formatDate(WHEN, { format: 'y' }), i.formatTime(WHEN), i.formatDateToParts(WHEN)],
	number: i => [i.formatNumber(0.5), i.formatNumber(0.5, { format: 'p' }), i.formatNumber(1234567.891, { style: 'currency', currency: 'JPY' })],
	plural: i => [i.formatPlural(1), i.formatPlural(2, { type: 'ordinal' })],
	list: i => i.formatList(['a', 'b', 'c']),
	'display name': i => i.formatDisplayName('de', { type: 'language' }),
	'relative time': i => i.formatRelativeTime(-1, 'day'),
	'rich text': i => i.formatMessage({ id: 'rich', defaultMessage: 'a <b>{x}</b>' }, { x: 'c', b: c => `_${c}_` }),
	'rich text by default': i => i.formatMessage({ id: 'rich', defaultMessage: 'a <b>c</b>' }),
	'dates in messages': i => i.formatMessage({ id: 'when', defaultMessage: '{d, date, y} {d, time, short}' }, { d: WHEN }),
	'empty message': i => i.formatMessage({ id: 'empty' })
}
const formatting = {
	name: 'message formatter',
	async: true,
	async run(c) {
		const locale = c.pick('locale', ['en', 'fr', 'ja'])
		const cached = c.pick('cache', ['none', 'undefined', 'given', 'shared by two apps'])
		const errors = []
		const m = c.load()
		const more = c.pick('configuration', Object.keys(CONFIGS))
		const config = { locale, messages: { ...MESSAGES, hi: `${locale}: Hi {name}` }, ...CONFIGS[more], onError: e => errors.push(e) }
		if (more === 'frozen') Object.freeze(Object.freeze(config).messages)
		const cache = cached === 'given' || cached.startsWith('shared') ? m.formatjs.createIntlCache() : undefined
		const o = cached === 'none' ? { config } : { config, cache }
		c.step(`formatjs ${locale}, cache ${cached}`)
		const app = await m.app.justApp({ name: 'x' }).with(m.formatjs.formatJSGizmoFn(o)).create()
		const apps = [[app, config]]
		if (cached.startsWith('shared')) {
			const config2 = { locale: 'de', messages: { hi: 'Hallo {name}', plain: 'schlicht' }, onError: e => errors.push(e) }
			apps.push([await m.app.justApp({ name: 'y' }).with(m.formatjs.formatJSGizmoFn({ config: config2, cache })).create(), config2])
		}
		for (const [a, conf] of apps) {
			const { intl } = a.formatjs
			const ref = m.formatjs.createIntl({ ...conf, onError: () => {} })
			c.is(intl.locale, conf.locale, 'locale')
			c.is(intl.messages, conf.messages, 'messages')
			for (const id of [...Object.keys(MESSAGES), 'missing', 'toString'])
				for (const values of [undefined, { name: 'Ann', n: 1 }, { name: '', n: 5 }]) {
					const n = errors.length
					const want = c.attempt(() => ref.formatMessage({ id, defaultMessage: 'default' }, values))
					const got = c.attempt(() => intl.formatMessage({ id, defaultMessage: 'default' }, values))
					c.eq([got.threw, got.value], [want.threw, want.value], `message ${id} with ${show(values)}`)
					if (values && MESSAGES[id] && Object.hasOwn(MESSAGES, id) && conf === config) c.eq(errors.length, n, `errors formatting ${id}`)
				}
			for (const use of Object.keys(USES)) {
				const want = c.attempt(() => USES[use](ref))
				const got = c.attempt(() => USES[use](intl))
				c.eq([got.threw, got.value], [want.threw, want.value], use)
			}
			if (conf === config) {
				c.is(intl.formatMessage({ id: 'hi' }, { name: 'Ann' }), `${locale}: Hi Ann`, 'formatted message')
				c.is(intl.formatNumber(1234.5), new Intl.NumberFormat(locale).format(1234.5), 'formatted number')
			}
			// the cache given is the one used
			if (cache) c.ok(Object.keys(cache.message).length > 0, 'the cache given was not used')
		}
		c.state(locale, cached, more)
	}
}

/** Every sequence of gizmos which provide a fetch: a supplied one wins, then what is there, then the page's. */
const PROVIDERS = ['fetchGizmo', 'test', 'test with fetch', 'own', 'browser', 'browser with fetch', 'browser test', 'browser test with fetch', 'preset', 'preset test with fetch']
const sequences = {
	name: 'sequences of fetch gizmos',
	async: true,
	depth: { quick: 4, thorough: 6 },
	async run(c) {
		const list = Array.from({ length: c.depth }, (_, i) => c.pick(`gizmo ${i}`, PROVIDERS))
		if (!c.mine()) return
		const m = c.load()
		const R = list.map((_, i) => recorder(`fetch ${i}`))
		let b = m.appT.justTestApp({ name: 'x' }).with(m.commands.commandsGizmoFn())
		let expected
		const seen = []
		list.forEach((g, i) => {
			const o = g.endsWith('with fetch') ? { fetch: R[i].fetch } : undefined
			switch (g.replace(' with fetch', '')) {
				case 'fetchGizmo':
					b = b.with(m.fetch.fetchGizmo)
					expected = undefined
					break
				case 'test':
					b = b.with(m.fetchT.fetchTestGizmoFn(o))
					expected = undefined
					break
				case 'own':
					b = b.with(m.app.define({ create: async () => ({ fetch: R[i].fetch }) }))
					expected = R[i]
					break
				case 'browser':
					b = b.with(m.browser.browserGizmoFn(o))
					break
				case 'browser test':
					b = b.with(m.browserT.browserTestGizmoFn(o))
					break
				case 'preset':
					b = b.with(m.presets.presetsBrowserGizmoFn())
					break
				case 'preset test':
					b = b.with(m.presetsT.presetsBrowserTestGizmoFn({ browser: o }))
			}
			if (o) expected = R[i]
			const want = expected
			b = b.with(m.app.define({ create: async ctx => (seen.push([ctx.fetch, want]), {}) }))
			c.step(g)
		})
		const app = await b.create()
		c.eq(R.map(r => r.calls.length).concat(m.page.fetches.length), [...R.map(() => 0), 0], 'fetches made while creating the app')
		await useFetch(c, app, m.page, R, expected, 'app.fetch')
		for (const [fetch, want] of seen) await useFetch(c, { fetch }, m.page, R, want, 'fetch seen on the way')
		c.state(list)
		c.outcome(expected?.name)
	}
}

export default {
	property: 'C26',
	entries,
	scenarios: [fetching, services, histories, formatting, sequences],
	assumptions: ['services are read when the app is created; the page has every service']
}
