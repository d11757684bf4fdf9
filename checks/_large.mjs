// Sizes beyond the usual ones, where limits, caches and buffers would show.
export const counts = c => (c.tier === 'thorough' ? [9, 17, 33, 65, 130, 300, 1100] : [12, 40, 130, 300])
export const lengths = c => (c.tier === 'thorough' ? [17, 33, 65, 129, 257, 1100, 5000, 70000, 300000] : [40, 300, 5000, 70000])
/** A text of the given length, whose end differs from its beginning. */
export const text = (n, tag = '') => {
	const unit = 'abcdéfgh 日ij'
	const s = `${tag}${unit.repeat(Math.ceil(n / unit.length))}`
	return `${s.slice(0, Math.max(0, n - 4))}_end`
}
/** A name of the given length without spaces; names with tags which begin alike differ at the end only. */
export const name = (n, tag = '') => `${tag.slice(0, 1)}${'x'.repeat(n)}_${tag}end`
/** Orders of 0..n-1. */
export const ORDERS = {
	forwards: n => Array.from({ length: n }, (_, i) => i),
	backwards: n => Array.from({ length: n }, (_, i) => n - 1 - i),
	'from both ends': n => Array.from({ length: n }, (_, i) => (i % 2 ? n - 1 - (i >> 1) : i >> 1))
}
