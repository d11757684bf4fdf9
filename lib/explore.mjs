// Stateless exhaustive exploration: an execution is determined by the sequence of answers given at its choice
// points. explore() runs every sequence, each on fresh instances of the code under test.
import { createEnv } from './env.mjs'
import { hash53, same, show } from './values.mjs'

export class Violation extends Error {
	constructor(message, key) {
		super(message)
		this.name = 'Violation'
		this.key = key
	}
}
export class HarnessError extends Error {}
const SKIP = Symbol('other shard')

export class Ctx {
	constructor(sc, prefix, bound, host) {
		this.sc = sc
		this.prefix = prefix
		this.bound = bound
		this.depth = Math.floor(bound)
		this.moving = bound % 1 !== 0 // the clock moves: see timePasses()
		this.tier = host.tier
		this.host = host
		this.choices = []
		this.widths = []
		this.trace = []
		this.newSteps = 0
		this.skipped = false
		this.unhandled = []
		this.pages = new Set()
		this.known = []
	}
	/** A choice point with answers 0..n-1. */
	choose(label, n) {
		if (this.skipped) throw SKIP
		const i = this.choices.length
		let v = 0
		if (i < this.prefix.length) {
			v = this.prefix[i]
			if (v >= n) throw new HarnessError(`replay diverged at choice ${i} (${label}): ${v} of ${n}`)
		}
		this.choices.push(v)
		this.widths.push(n)
		this.timePasses()
		const { shard, shards } = this.host
		if (shards > 1 && (i === 1 || i === 2)) {
			// split by the first two choices, or by three where that makes too few parts
			const few = this.widths[0] * this.widths[1] < 64
			const key = this.choices[0] * this.widths[1] + this.choices[1]
			if (i === 1 ? !few && key % shards !== shard : few && (key * n + v) % shards !== shard) {
				this.skipped = true
				throw SKIP
			}
		}
		this.host.beat?.(this)
		return v
	}
	pick(label, options) {
		const i = this.choose(label, options.length)
		return options[i]
	}
	/** Whether an execution belongs to this shard (the ones split have been skipped otherwise). */
	mine() {
		const { shard, shards } = this.host
		const [a, b] = this.widths
		if (shards <= 1) return true
		if (this.choices.length < 2) return shard === 0
		if (this.choices.length === 2 && a * b < 64) return (this.choices[0] * b + this.choices[1]) % shards === shard
		return true
	}
	/** Whether the state is looked at after operation i: always, in scenarios made by sparse() only once and at the end. */
	look(i) {
		return this.looks === undefined || i === this.looks || i === this.depth - 1
	}
	bool(label) {
		return this.choose(label, 2) === 1
	}
	/**
	 * In the explorations with a moving clock, days go by at every choice and every operation (of a page too busy for
	 * its timers, which go off in drain()). What holds does not depend on how fast things happen.
	 */
	timePasses() {
		if (this.moving) for (const p of this.pages) p.now += 3 * 86_400_000
	}
	/** One executed operation (a transition), described for the trace. */
	step(desc) {
		this.timePasses()
		this.trace.push(desc)
		if (this.choices.length >= this.prefix.length) this.newSteps++
	}
	/** An observation: part of the trace (compared when an execution is replayed) but not a transition. */
	note(desc) {
		this.trace.push(`  ${desc}`)
	}
	/** The canonical state reached. */
	state(...v) {
		if (this.choices.length < this.prefix.length) return // recorded by the execution which got there first
		this.host.states.add(hash53(this.sc.name + show(v)))
	}
	/** A distinct observable result. */
	outcome(v) {
		const s = show(v)
		if (this.host.outcomes.size < 200000) this.host.outcomes.add(hash53(this.sc.name + s))
	}
	fail(msg, key) {
		throw new Violation(msg, key)
	}
	ok(cond, msg, key) {
		if (!cond) this.fail(typeof msg === 'function' ? msg() : msg, key)
	}
	/** Structural equality. */
	eq(actual, expected, what, key) {
		if (!same(actual, expected)) this.fail(`${what}: got ${show(actual)}, expected ${show(expected)}`, key)
	}
	/** Identity (Object.is). */
	is(actual, expected, what, key) {
		if (!Object.is(actual, expected)) this.fail(`${what}: got ${show(actual)}, expected (identical) ${show(expected)}`, key)
	}
	/** Runs f and returns {threw, error, value}. */
	attempt(f) {
		try {
			return { threw: false, value: f() }
		} catch (error) {
			if (error === SKIP || error instanceof HarnessError || error instanceof Violation) throw error
			return { threw: true, error }
		}
	}
	/** Fresh instance of the code under test in a (fresh, unless given) page. */
	load(opts = {}) {
		const page = opts.page ?? createEnv(opts)
		this.pages.add(page.ctl)
		return { ...this.host.instantiate(page.env), page: page.ctl, env: page }
	}
	/** Lets every pending microtask run (and unhandled rejections surface), and time pass: timers go off. */
	async drain() {
		await new Promise(r => setImmediate(r))
		for (let i = 0; i < 5; i++) {
			let fired = 0
			for (const p of this.pages) fired += p.fireTimers()
			if (!fired) return
			await new Promise(r => setImmediate(r))
		}
	}
}

/**
 * The same scenario, where what changes is looked at after one of the operations, or none, and at the end:
 * looking can bring things up to date which would otherwise be stale.
 */
export const sparse = (sc, depth, name = `${sc.name}, seldom looked at`) => ({
	...sc,
	name,
	depth,
	run(c) {
		c.looks = c.choose('looked at after', c.depth) - 1
		return sc.run(c)
	}
})

/** Runs one execution. */
export async function runOne(sc, prefix, bound, host) {
	const c = new Ctx(sc, prefix, bound, host)
	host.current = c
	let error
	try {
		const r = sc.run(c)
		if (r && typeof r.then === 'function') await r
		if (sc.async) {
			await c.drain()
			if (c.unhandled.length && !sc.allowUnhandled)
				throw new Violation(`unhandled rejection: ${show(c.unhandled[0])}`, 'unhandled')
		}
	} catch (e) {
		if (c.skipped) return { c, skipped: true }
		if (e instanceof HarnessError) throw e
		error = e
	}
	if (c.skipped) return { c, skipped: true }
	return { c, error }
}

/**
 * Explores one scenario completely at each bound in `bounds`: a half more than a depth is that depth with a moving
 * clock.
 * host: {tier, shard, shards, instantiate, states:Set, outcomes:Set, beat, isKnown(error)}
 */
export async function explore(sc, bounds, host, stats) {
	for (const bound of bounds) {
		let prefix = []
		for (;;) {
			const { c, error, skipped } = await runOne(sc, prefix, bound, host)
			if (!skipped && c.mine()) {
				stats.executions++
				stats.transitions += c.newSteps
				stats.maxSteps = Math.max(stats.maxSteps, c.trace.length)
				if (error) {
					const k = host.isKnown?.(error)
					if (k) {
						stats.known[k] = (stats.known[k] ?? 0) + 1
					} else {
						const again = await runOne(sc, c.choices, bound, host)
						const v = describe(sc, bound, c, error)
						if (!again.error) v.message += ' (but not when the same execution was run again)'
						return { violation: v }
					}
				}
				if (stats.samples.length < 2 || (stats.executions & (stats.executions - 1)) === 0) {
					// powers of two: kept sparse, as samples of this run
					if (stats.samples.length > 5) stats.samples.splice(2, 1)
					stats.samples.push({ scenario: sc.name, bound, choices: c.choices, trace: c.trace.slice(0, 60) })
				}
				if (stats.executions === 1 || stats.executions % 1009 === 0) {
					const again = await runOne(sc, c.choices, bound, host)
					stats.replayed++
					if (again.c.trace.join('\n') !== c.trace.join('\n') || !!again.error !== !!error)
						throw new HarnessError(
							`not deterministic: ${sc.name} ${JSON.stringify(c.choices)}\n${c.trace.join('\n')}\n--- second run\n${again.c.trace.join('\n')}`
						)
				}
			}
			let i = c.choices.length - 1
			while (i >= 0 && c.choices[i] + 1 >= c.widths[i]) i--
			if (i < 0) break
			prefix = c.choices.slice(0, i)
			prefix.push(c.choices[i] + 1)
			if (host.expired?.()) {
				stats.capped = true
				return {}
			}
		}
		stats.completedBound = bound
	}
	return {}
}

export function describe(sc, bound, c, error) {
	return {
		scenario: sc.name,
		bound,
		choices: c.choices,
		trace: c.trace,
		message: error instanceof Violation ? error.message : `unexpected exception: ${error?.stack ?? show(error)}`,
		key: error?.key
	}
}
