// Deterministic printing and structural comparison of values.

/** Deterministic text of a value: used in traces, fingerprints and messages. */
export function show(v, depth = 6, seen = []) {
	if (v === null) return 'null'
	switch (typeof v) {
		case 'undefined':
			return 'undefined'
		case 'string':
			return JSON.stringify(v)
		case 'number':
			return Object.is(v, -0) ? '-0' : String(v)
		case 'boolean':
			return String(v)
		case 'bigint':
			return `${v}n`
		case 'symbol':
			return v.toString()
		case 'function':
			return `fn:${v.tag ?? v.name ?? ''}`
	}
	if (seen.includes(v)) return '<cycle>'
	if (depth <= 0) return '<deep>'
	const s = [...seen, v]
	if (v instanceof Error || Object.prototype.toString.call(v) === '[object Error]') return `${v.name}(${v.message})`
	if (Array.isArray(v)) return `[${Array.from(v, x => show(x, depth - 1, s)).join(',')}]`
	if (v instanceof Map) return `Map{${[...v].map(([k, x]) => `${show(k)}=>${show(x, depth - 1, s)}`).join(',')}}`
	if (v instanceof Set) return `Set{${[...v].map(x => show(x, depth - 1, s)).join(',')}}`
	if (v instanceof Date) return `Date(${v.getTime()})`
	if (typeof v.then === 'function') return '<promise>'
	return `{${Reflect.ownKeys(v)
		.map(k => `${typeof k === 'symbol' ? k.toString() : JSON.stringify(k)}:${show(v[k], depth - 1, s)}`)
		.join(',')}}`
}

/** Structural equality (own enumerable string and symbol keys; prototypes are not compared). */
export function same(a, b) {
	if (Object.is(a, b)) return true
	if (typeof a !== 'object' || typeof b !== 'object' || a === null || b === null) return false
	if (Array.isArray(a) !== Array.isArray(b)) return false
	if (a instanceof Map || b instanceof Map) {
		if (!(a instanceof Map && b instanceof Map) || a.size !== b.size) return false
		for (const [k, x] of a) if (!b.has(k) || !same(x, b.get(k))) return false
		return true
	}
	if (a instanceof Set || b instanceof Set) {
		if (!(a instanceof Set && b instanceof Set) || a.size !== b.size) return false
		for (const k of a) if (!b.has(k)) return false
		return true
	}
	if (a instanceof Error || b instanceof Error) return false
	const ka = enumKeys(a)
	const kb = enumKeys(b)
	if (ka.length !== kb.length) return false
	return ka.every(k => Object.prototype.hasOwnProperty.call(b, k) && same(a[k], b[k]))
}

function enumKeys(o) {
	return Reflect.ownKeys(o).filter(k => Object.prototype.propertyIsEnumerable.call(o, k))
}

/** 53-bit hash of a string (cyrb53). */
export function hash53(str) {
	let h1 = 0xdeadbeef
	let h2 = 0x41c6ce57
	for (let i = 0; i < str.length; i++) {
		const ch = str.charCodeAt(i)
		h1 = Math.imul(h1 ^ ch, 2654435761)
		h2 = Math.imul(h2 ^ ch, 1597334677)
	}
	h1 = Math.imul(h1 ^ (h1 >>> 16), 2246822507) ^ Math.imul(h2 ^ (h2 >>> 13), 3266489909)
	h2 = Math.imul(h2 ^ (h2 >>> 16), 2246822507) ^ Math.imul(h1 ^ (h1 >>> 13), 3266489909)
	return 4294967296 * (2097151 & h2) + (h1 >>> 0)
}
