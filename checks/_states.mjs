// Shared pieces of the checks of @just-web/states.
import { show } from '../lib/values.mjs'

export const entries = {
	states: [
		'@just-web/states',
		'adder',
		'createRegistry',
		'createState',
		'createStore',
		'isNothing',
		'nothing',
		'push',
		'statesGizmo',
		'toReadonlyRegistry',
		'toReadonlyStore',
		'unshift',
		'withAdder'
	],
	appT: ['@just-web/app/testing', 'justTestApp']
}

export function freezeDeep(v) {
	if (v && typeof v === 'object' && !Object.isFrozen(v)) {
		Object.freeze(v)
		Reflect.ownKeys(v).forEach(k => freezeDeep(v[k]))
	}
	return v
}

/** A recorder of the calls of named handlers. */
export function recorder(onCall) {
	const calls = []
	const handlers = new Map()
	return {
		calls,
		take: () => calls.splice(0),
		handler(tag) {
			if (!handlers.has(tag)) {
				const told = (value, prev) => {
					calls.push({ tag, value, prev })
					onCall?.(tag, value, prev)
				}
				// written in different ways
				const h = [told, (...args) => told(...args), (value, prev, ..._rest) => told(value, prev), function (value, prev, _a, _b) { told(value, prev) }][handlers.size % 4]
				h.tag = tag
				handlers.set(tag, h)
			}
			return handlers.get(tag)
		}
	}
}

export const showCalls = calls => calls.map(c => `${c.tag}(${show(c.value)}, ${show(c.prev)})`).join(' ')

/**
 * Makes a state of the given kind holding `init`.
 * @returns {get, set, onChange, reset}
 */
export async function makeKind(kind, m, init) {
	switch (kind) {
		case 'store':
			return m.states.createStore(init)
		case 'state': {
			const [initial, set, onChange, reset] = m.states.createState(init)
			let current = initial
			// a state has no getter: as documented, the latest value is known through onChange()
			onChange(v => (current = v))
			return { get: () => current, set, onChange, reset }
		}
		case 'app store': {
			const app = await m.appT.justTestApp().with(m.states.statesGizmo).create()
			return app.states.createStore(init)
		}
		case 'app state': {
			const app = await m.appT.justTestApp().with(m.states.statesGizmo).create()
			const [initial, set, onChange, reset] = app.states.createState(init)
			let current = initial
			onChange(v => (current = v))
			return { get: () => current, set, onChange, reset }
		}
		case 'withAdder':
			return m.states.withAdder(m.states.createStore(init), m.states.push)
		case 'registry':
			return m.states.createRegistry(init)
		case 'app registry': {
			const app = await m.appT.justTestApp().with(m.states.statesGizmo).create()
			return app.states.createRegistry(init)
		}
	}
}
