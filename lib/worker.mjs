import { workerData, parentPort } from 'node:worker_threads'
import { instantiator } from './build.mjs'
import { explore } from './explore.mjs'

const { checkUrl, code, tier, shard, shards, sab, knownKeys, deadline, only } = workerData
const AGAIN = { quick: 3000, thorough: 30000 } // executions of a worker
const STOP = 511 // the place of the signal to stop
const beatBuf = new Int32Array(sab)
const check = (await import(checkUrl)).default
const inst = instantiator(code)

const host = {
	tier,
	shard,
	shards,
	states: new Set(),
	outcomes: new Set(),
	instantiate: env => ({ ...inst(env) }),
	current: undefined,
	isKnown: e => (e?.key && knownKeys.includes(e.key) ? e.key : undefined),
	expired: () => Atomics.load(beatBuf, STOP) === 1 || Date.now() > deadline,
	beat(c) {
		Atomics.add(beatBuf, 0, 1)
		beatBuf[1] = host.scIndex
		beatBuf[2] = Math.floor(2 * c.bound)
		const n = Math.min(c.choices.length, beatBuf.length - 5)
		beatBuf[3] = n
		for (let i = 0; i < n; i++) beatBuf[4 + i] = c.choices[i]
	}
}
process.on('unhandledRejection', e => {
	host.current?.unhandled.push(e)
})

const perScenario = []
let violation
await new Promise(r => setImmediate(r)) // out of the evaluation of this module
try {
	for (const [i, sc] of check.scenarios.entries()) {
		if (only && sc.name !== only) continue
		if (sc.thoroughOnly && tier !== 'thorough') continue
		if (Atomics.load(beatBuf, STOP) === 1) break
		host.scIndex = i
		const stats = { name: sc.name, executions: 0, transitions: 0, maxSteps: 0, replayed: 0, samples: [], known: {}, capped: false }
		const s0 = host.states.size
		const o0 = host.outcomes.size
		const bounds = boundsOf(sc, tier)
		stats.bounds = bounds
		let r = await explore(sc, bounds, host, stats)
		if (!r.violation && !stats.capped) {
			// again with a moving clock: one operation less where that would take long
			const d = bounds.at(-1)
			stats.moving = stats.executions <= AGAIN[tier] || d < 2 ? d : d - 1
			r = await explore(sc, [stats.moving + 0.5], host, stats)
		}
		stats.states = host.states.size - s0
		stats.outcomes = host.outcomes.size - o0
		perScenario.push(stats)
		if (r.violation) {
			violation = r.violation
			break
		}
	}
	parentPort.postMessage({
		type: 'done',
		perScenario,
		violation,
		states: Float64Array.from(host.states),
		outcomes: Float64Array.from(host.outcomes)
	})
} catch (e) {
	parentPort.postMessage({ type: 'error', error: String(e?.stack ?? e) })
}

function boundsOf(sc, tier) {
	const d = sc.depth?.[tier] ?? sc.depth?.quick
	if (d === undefined) return [0]
	return Array.from({ length: d }, (_, i) => i + 1)
}
