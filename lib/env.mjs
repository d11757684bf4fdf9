// A fake browser page: everything the code under test can reach outside itself, under the harness's control.

/** A DOM Storage (with named-property access), optionally with a hook that may throw before any operation. */
export function createStorage(initial = {}) {
	const map = new Map(Object.entries(initial))
	const ctl = { map, ops: [], before: undefined }
	const brand = new WeakSet()
	function op(self, name, args, f) {
		if (!brand.has(self)) throw new TypeError('Illegal invocation')
		ctl.ops.push([name, ...args])
		ctl.before?.(name, args)
		return f()
	}
	class Storage {
		get length() {
			return op(this, 'length', [], () => map.size)
		}
		key(i) {
			return op(this, 'key', [i], () => [...map.keys()][i] ?? null)
		}
		getItem(k) {
			k = `${k}`
			return op(this, 'getItem', [k], () => (map.has(k) ? map.get(k) : null))
		}
		setItem(k, v) {
			k = `${k}`
			v = `${v}`
			return op(this, 'setItem', [k, v], () => void map.set(k, v))
		}
		removeItem(k) {
			k = `${k}`
			return op(this, 'removeItem', [k], () => void map.delete(k))
		}
		clear() {
			return op(this, 'clear', [], () => map.clear())
		}
	}
	const target = new Storage()
	const isNamed = p => typeof p === 'string' && !(p in Storage.prototype) && map.has(p)
	const storage = new Proxy(target, {
		get: (t, p, recv) => (isNamed(p) ? op(recv, 'getItem', [p], () => map.get(p)) : Reflect.get(t, p, recv)),
		set: (t, p, v) => {
			if (typeof p !== 'string') return Reflect.set(t, p, v)
			storage.setItem(p, v)
			return true
		},
		has: (t, p) => isNamed(p) || Reflect.has(t, p),
		deleteProperty: (t, p) => {
			if (isNamed(p)) storage.removeItem(p)
			return true
		},
		ownKeys: () => [...map.keys()],
		getOwnPropertyDescriptor: (t, p) =>
			isNamed(p) ? { value: map.get(p), writable: true, enumerable: true, configurable: true } : undefined
	})
	brand.add(storage)
	return { storage, ctl }
}

/** Listener list in registration order, with DOM de-duplication. */
export function createEventTarget() {
	const listeners = []
	return {
		listeners,
		addEventListener(type, fn, opts) {
			const once = !!(opts && typeof opts === 'object' && opts.once)
			const signal = opts && typeof opts === 'object' ? opts.signal : undefined
			if (signal?.aborted) return
			if (listeners.some(l => l.type === type && l.fn === fn)) return
			const entry = { type, fn, once }
			listeners.push(entry)
			signal?.addEventListener('abort', () => {
				if (listeners.includes(entry)) listeners.splice(listeners.indexOf(entry), 1)
			})
		},
		removeEventListener(type, fn) {
			const i = listeners.findIndex(l => l.type === type && l.fn === fn)
			if (i >= 0) listeners.splice(i, 1)
		},
		dispatch(type, ev) {
			const out = []
			for (const l of listeners.filter(l => l.type === type)) {
				if (l.once) listeners.splice(listeners.indexOf(l), 1)
				out.push(typeof l.fn === 'function' ? l.fn.call(undefined, ev) : l.fn.handleEvent(ev))
			}
			return out
		}
	}
}

/**
 * @param {object} opts localStorage/sessionStorage: createStorage() results; language; userAgent; random: () => number
 */
export function createEnv(opts = {}) {
	const local = opts.local ?? createStorage()
	const session = opts.session ?? createStorage()
	const win = createEventTarget()
	const doc = createEventTarget()
	let lcg = 12345
	const ctl = {
		local,
		session,
		win,
		doc,
		console: [],
		fetches: [],
		timers: [],
		now: 1_700_000_000_000,
		/** Time passes: every pending timer goes off. @returns how many there were */
		fireTimers() {
			const list = ctl.timers.splice(0).sort((a, b) => a.at - b.at)
			for (const t of list) {
				ctl.now = Math.max(ctl.now, t.at)
				if (t.cancelled) continue
				if (--t.times > 0) {
					t.at += Math.max(t.ms, 1)
					ctl.timers.push(t)
				}
				if (!ctl.uncaught) t.f(...t.a)
				else
					try {
						t.f(...t.a)
					} catch (e) {
						ctl.uncaught(e)
					}
			}
			return list.length
		}
	}
	let lastTimer = 0
	const timer = (f, ms, a, times = 1) => {
		ctl.timers.push({ id: ++lastTimer, f, ms, a, times, at: ctl.now + ms })
		return lastTimer
	}
	const cancel = id => {
		const t = ctl.timers.find(t => t.id === id)
		if (t) t.cancelled = true
		ctl.timers = ctl.timers.filter(t => t.id !== id)
	}
	// a clock which stands still unless timers go off
	const date = new Proxy(Date, {
		construct: (t, args, nt) => Reflect.construct(t, args.length ? args : [ctl.now], nt === date ? t : nt),
		apply: () => new Date(ctl.now).toString(),
		get: (t, k) => (k === 'now' ? () => ctl.now : t[k])
	})
	ctl.random =
		opts.random ??
		(() => {
			lcg = (Math.imul(lcg, 1103515245) + 12345) >>> 0
			return lcg / 4294967296
		})
	const math = Object.create(Math, { random: { value: () => ctl.random() } })
	const cons = {}
	for (const m of ['log', 'info', 'debug', 'warn', 'error', 'trace'])
		cons[m] = (...args) => void ctl.console.push([m, ...args])
	const userAgent =
		opts.userAgent ??
		'Mozilla/5.0 (X11; Linux x86_64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36'
	const g = Object.create(globalThis)
	const navigator = opts.navigator ?? { language: opts.language ?? 'en-US', userAgent, platform: opts.platform ?? 'Linux x86_64' }
	const location = { href: 'http://localhost/', pathname: '/', search: '', hash: '', origin: 'http://localhost' }
	const document = {
		addEventListener: doc.addEventListener,
		removeEventListener: doc.removeEventListener,
		defaultView: g,
		documentElement: {},
		body: {}
	}
	// the functions of the window work on the window only
	const onWindow = f =>
		function (...args) {
			if (this !== g && this !== undefined) throw new TypeError('Illegal invocation')
			return f(...args)
		}
	const fetch = function fetch(...args) {
		if (this !== g && this !== undefined) throw new TypeError('Illegal invocation')
		ctl.fetches.push(args)
		return Promise.resolve({ ok: true, args })
	}
	const history = {
		state: null,
		pushState(s) {
			history.state = s
		},
		replaceState(s) {
			history.state = s
		},
		go() {}
	}
	const env = {
		globalThis: g,
		window: g,
		self: g,
		global: undefined,
		document,
		navigator,
		location,
		history,
		localStorage: local.storage,
		sessionStorage: session.storage,
		fetch,
		addEventListener: onWindow(win.addEventListener),
		removeEventListener: onWindow(win.removeEventListener),
		console: cons,
		Math: math,
		Date: date,
		performance: { now: () => ctl.now - 1_699_999_990_000, timeOrigin: 1_699_999_990_000, mark() {}, measure() {} },
		setTimeout: (f, ms = 0, ...a) => timer(f, ms, a),
		clearTimeout: cancel,
		setInterval: (f, ms = 0, ...a) => timer(f, ms, a, 3), // goes off three times: nothing under test may depend on more
		clearInterval: cancel,
		requestAnimationFrame: f => timer(f, 16, []),
		cancelAnimationFrame: cancel,
		requestIdleCallback: f => timer(f, 50, []),
		cancelIdleCallback: cancel
	}
	for (const k of Object.keys(env)) {
		if (k === 'globalThis') continue
		Object.defineProperty(g, k, { value: env[k], writable: true, configurable: true, enumerable: false })
	}
	Object.defineProperty(g, 'globalThis', { value: g, writable: true, configurable: true })
	document.defaultView = g
	return { env, ctl }
}
