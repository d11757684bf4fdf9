// C14: titles and keys shown for a command follow its id and the platform.
import { show } from '../lib/values.mjs'
import { counts, lengths, text } from './_large.mjs'
import { entries } from './_commands.mjs'

/** A text as a sentence: words at case changes and separators, the first one capitalised. */
function sentence(text) {
	const words = []
	let w = ''
	const upper = ch => ch !== ch.toLowerCase()
	const lower = ch => ch !== ch.toUpperCase() && !upper(ch)
	const digit = ch => ch >= '0' && ch <= '9'
	const chars = [...text]
	chars.forEach((ch, i) => {
		const prev = chars[i - 1]
		const next = chars[i + 1]
		if (!upper(ch) && !lower(ch) && !digit(ch)) {
			if (w) words.push(w)
			w = ''
			return
		}
		if (w && upper(ch) && (lower(prev) || digit(prev) || (upper(prev) && next && lower(next)))) {
			words.push(w)
			w = ''
		}
		w += ch
	})
	if (w) words.push(w)
	return words.map((x, i) => (i ? x.toLowerCase() : x[0].toUpperCase() + x.slice(1).toLowerCase())).join(' ')
}

const PARTS = ['a', 'showCommandPalette', 'show-palette', 'Show', 'openURL', 'x2', 'with space', 'UPPER', 'snake_case', 'éa', 'a/b', '@just-web', 'toString', 'X', 'v2Beta', 'just-web']
const TITLES = [undefined, '', 'Title', 'tItLe.x', ' ', '0']
const DESCRIPTIONS = [undefined, '', 'text', 'a.b']

function title(id) {
	const i = id.indexOf('.')
	return sentence(i < 0 ? id : id.slice(i + 1))
}

const formats = {
	name: 'commands',
	run(c) {
		const n = 1 + c.choose('parts', 5)
		const parts = []
		for (let i = 0; i < n; i++) parts.push(c.pick('part', i < 2 || (i === 2 && c.tier === 'thorough') ? PARTS : i === 2 ? PARTS.slice(0, 4) : PARTS.slice(2, 3)))
		const id = parts.join('.')
		const t = c.pick('title', TITLES)
		const d = c.pick('description', n > 2 ? DESCRIPTIONS.slice(0, 2) : DESCRIPTIONS)
		const extra = c.bool('more')
		const { commands } = c.load()
		const cmd = { id }
		if (t !== undefined) cmd.title = t
		if (d !== undefined) cmd.description = d
		if (extra) Object.assign(cmd, { category: 'c', commandPalette: false, key: 'k' })
		const copy = { ...cmd }
		const r = commands.formatCommand(cmd)
		c.step(`formatCommand(${show(cmd)})`)
		c.is(r.id, id, 'id')
		c.is(r.description, d, 'description')
		c.is(r.title, t !== undefined ? t : title(id), 'title')
		c.eq(cmd, copy, 'the contribution given')
		c.eq(commands.formatCommand(cmd), r, 'formatting again')
		c.state(id, t, d)
		c.outcome(r.title)
	}
}

const long = {
	name: 'long ids and texts',
	run(c) {
		const what = c.pick('what', ['words', 'parts', 'one word', 'title', 'description', 'commands'])
		const n = c.pick('size', ['title', 'description'].includes(what) ? lengths(c) : counts(c))
		if (!c.mine()) return
		const { commands, keyboard } = c.load()
		const rest = Array.from({ length: n }, (_, i) => ['show', 'Open', 'the', 'Item'][i % 4]).join(what === 'parts' ? '.' : '')
		const id = what === 'words' || what === 'parts' ? `plug.${rest}` : what === 'one word' ? `plug.${'x'.repeat(n)}End` : 'plug.showIt'
		for (let k = 0; k < (what === 'commands' ? n : 2); k++) {
			const cmd = { id: what === 'commands' ? `${id}${k}` : id }
			if (what === 'title') cmd.title = text(n)
			if (what === 'description') cmd.description = text(n)
			c.step(`format ${what} ${n}`)
			const r = commands.formatCommand(cmd)
			c.eq([r.id, r.title, r.description], [cmd.id, what === 'title' ? text(n) : title(cmd.id), cmd.description], 'formatted command')
			const app = { os: { isMac: () => k % 2 === 0 } }
			const kb = { id: cmd.id, key: what === 'commands' ? `ctrl+${k}` : `ctrl+${text(n)}`, mac: `cmd+${k} ${text(Math.min(n, 300))}` }
			const f = keyboard.formatKeyBinding(app, kb)
			c.eq([f.id, f.key], [cmd.id, k % 2 ? kb.key : kb.mac], 'formatted key binding')
		}
		c.state(what, n)
		c.outcome([what, n])
	}
}

const AGENTS = {
	'Mozilla/5.0 (Macintosh; Intel Mac OS X 10_15_7) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/16.1 Safari/605.1.15': true,
	'Mozilla/5.0 (Macintosh; Intel Mac OS X 10_15_7) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36': true,
	'Mozilla/5.0 (Macintosh; Intel Mac OS X 10.15; rv:120.0) Gecko/20100101 Firefox/120.0': true,
	'Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36': false,
	'Mozilla/5.0 (Windows NT 10.0; Win64; x64; rv:120.0) Gecko/20100101 Firefox/120.0': false,
	'Mozilla/5.0 (X11; Linux x86_64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36': false,
	'Mozilla/5.0 (X11; Ubuntu; Linux x86_64; rv:120.0) Gecko/20100101 Firefox/120.0': false,
	'Mozilla/5.0 (Linux; Android 13; Pixel 7) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Mobile Safari/537.36': false,
	'Mozilla/5.0 (iPhone; CPU iPhone OS 16_1 like Mac OS X) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/16.1 Mobile/15E148 Safari/604.1': false,
	'Mozilla/5.0 (X11; CrOS x86_64 14541.0.0) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36': false,
	'': false
}
const KEYS = [undefined, '', 'ctrl+k', 'a', 'ctrl+k ctrl+s']
const MACS = [undefined, '', 'cmd+k', 'a', 'g i']

const keys = {
	name: 'keys',
	async: true,
	async run(c) {
		const agent = c.pick('browser', Object.keys(AGENTS))
		const how = c.pick('platform', ['real', 'test, default', 'test, empty options', 'test, undefined', 'test, mac', 'test, not mac', 'test, changing'])
		const m = c.load({ userAgent: agent })
		let answer = how === 'test, mac'
		let asked = 0
		const f = () => (asked++, answer)
		const gizmo =
			how === 'real'
				? m.os.osGizmo
				: how === 'test, default'
					? m.osT.osTestGizmoFn()
					: how === 'test, empty options'
						? m.osT.osTestGizmoFn({})
						: how === 'test, undefined'
						? m.osT.osTestGizmoFn({ isMac: undefined })
						: m.osT.osTestGizmoFn({ isMac: f })
		const app = await m.appT.justTestApp().with(gizmo).create()
		c.step(`${how}, ${agent}`)
		const injected = !['real', 'test, default', 'test, empty options', 'test, undefined'].includes(how)
		for (let round = 0; round < 2; round++) {
			if (how === 'test, changing') answer = !answer
			const mac = injected ? answer : AGENTS[agent]
			c.is(app.os.isMac(), mac, 'isMac()')
			if (how === 'real') c.is((0, app.os.isMac)(), mac, 'isMac() by itself')
			for (const key of KEYS)
				for (const k2 of MACS) {
					const kb = { id: `id ${key} ${k2}` }
					if (key !== undefined) kb.key = key
					if (k2 !== undefined) kb.mac = k2
					const copy = { ...kb }
					const r = m.keyboard.formatKeyBinding(app, kb)
					c.is(r.id, kb.id, 'id')
					c.is(r.key, mac && k2 !== undefined ? k2 : key, `key of ${show(kb)} on ${mac ? 'a Mac' : 'another platform'}`)
					c.eq(kb, copy, 'the key binding given')
				}
		}
		if (injected) c.ok(asked > 0, 'the injected platform is asked')
		c.state(agent, how)
		c.outcome([AGENTS[agent], how])
	}
}

export default {
	property: 'C14',
	entries,
	scenarios: [formats, keys, long],
	assumptions: ['the words of an id are those of the sentence-case package for letters, digits and ordinary separators; ids with an empty part are not covered']
}
