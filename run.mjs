// node run.mjs <property> [--tier quick|thorough] [--scenario NAME] [--replay FILE]
import fs from 'node:fs'
import os from 'node:os'
import path from 'node:path'
import { fileURLToPath, pathToFileURL } from 'node:url'
import { Worker } from 'node:worker_threads'
import { bundle, instantiator, REPO } from './lib/build.mjs'
import { runOne } from './lib/explore.mjs'

const root = path.dirname(fileURLToPath(import.meta.url))
const args = process.argv.slice(2)
const id = args[0]
const opt = name => {
	const i = args.indexOf(name)
	return i >= 0 ? args[i + 1] : undefined
}
const tier = opt('--tier') ?? process.env.VERIF_TIER ?? 'quick'
const seed = Number(process.env.VERIF_SEED ?? 1)
const t0 = Date.now()

const file = fs.readdirSync(path.join(root, 'checks')).find(f => f.startsWith(`${id}`) && f.endsWith('.mjs'))
if (!file) {
	console.error(`no check for ${id}`)
	process.exit(2)
}
const checkUrl = pathToFileURL(path.join(root, 'checks', file)).href
const check = (await import(checkUrl)).default

let built
try {
	built = await bundle(check.entries)
} catch (e) {
	console.error(`cannot build ${REPO}: ${e?.message ?? e}`)
	process.exit(2)
}

if (opt('--replay')) {
	const r = JSON.parse(fs.readFileSync(opt('--replay'), 'utf8'))
	const sc = check.scenarios.find(s => s.name === r.scenario)
	const inst = instantiator(built.code)
	const host = { tier, shard: 0, shards: 1, states: new Set(), outcomes: new Set(), instantiate: e => ({ ...inst(e) }) }
	process.on('unhandledRejection', e => host.current?.unhandled.push(e))
	const { c, error } = await runOne(sc, r.choices, r.bound, host)
	console.log(c.trace.join('\n'))
	console.log(error ? `FAILS: ${error.stack ?? error}` : 'holds')
	process.exit(error ? 1 : 0)
}

const known = readKnown()
const capS = Number(process.env.VERIF_CAP_S ?? (tier === 'thorough' ? 780 : 600))
const only = opt('--scenario')
const shards = Number(process.env.VERIF_WORKERS ?? Math.max(1, Math.min(8, os.cpus().length)))
const STALL_MS = 90_000
const STOP = 511 // where in the shared buffer the workers are told to stop

const results = []
let violation
let failure
const workers = []
await new Promise(resolve => {
	let left = shards
	const finish = () => {
		if (--left === 0 || violation || failure) resolve()
	}
	for (let shard = 0; shard < shards; shard++) {
		const sab = new SharedArrayBuffer(4 * 512)
		const beat = new Int32Array(sab)
		const w = new Worker(path.join(root, 'lib/worker.mjs'), {
			resourceLimits: { maxYoungGenerationSizeMb: 16 },
			workerData: {
				checkUrl,
				code: built.code,
				tier,
				shard,
				shards,
				sab,
				knownKeys: known.map(k => k.key),
				deadline: t0 + capS * 1000,
				only
			}
		})
		const rec = { w, beat, last: -1, at: Date.now(), done: false }
		workers.push(rec)
		const stuck = why => {
			const sc = check.scenarios[beat[1]]
			const choices = Array.from(beat.slice(4, 4 + beat[3]))
			violation ??= { scenario: sc?.name, bound: beat[2] / 2, choices, trace: [], message: why }
		}
		w.on('message', m => {
			rec.done = true
			if (m.type === 'error') failure ??= m.error
			else {
				results.push(m)
				if (m.violation && (!violation || m.violation.trace.length < violation.trace.length)) violation = m.violation
			}
			finish()
		})
		w.on('error', e => {
			if (rec.done) return
			rec.done = true
			failure ??= String(e?.stack ?? e)
			finish()
		})
		w.on('exit', () => {
			rec.exited = true
			if (rec.done) return
			rec.done = true
			stuck('the execution never completes: something it waits for is never settled')
			finish()
		})
		rec.stuck = stuck
	}
	const timer = setInterval(() => {
		for (const r of workers) {
			if (r.done) continue
			const b = Atomics.load(r.beat, 0)
			if (b !== r.last) {
				r.last = b
				r.at = Date.now()
			} else if (Date.now() - r.at > STALL_MS && b > 0) {
				r.done = true
				r.hangs = true
				r.stuck(`the execution does not terminate (no progress for ${STALL_MS / 1000} s)`)
				finish()
			}
		}
		if (left === 0 || violation || failure) clearInterval(timer)
	}, 1000)
})
// workers end by themselves after the execution at hand: terminating one in the midst of its modules can crash node
for (const r of workers) Atomics.store(r.beat, STOP, 1)
for (const end = Date.now() + 15_000; workers.some(r => !r.exited) && !workers.every(r => r.exited || r.hangs) && Date.now() < end; ) await new Promise(r => setTimeout(r, 20))
for (const r of workers) if (!r.exited) await r.w.terminate()

if (failure) {
	console.error(failure)
	process.exit(2)
}

const states = new Set()
const outcomes = new Set()
const per = new Map()
const foundKnown = {}
for (const r of results) {
	for (const s of r.states) states.add(s)
	for (const s of r.outcomes) outcomes.add(s)
	for (const s of r.perScenario) {
		const t = per.get(s.name) ?? { name: s.name, executions: 0, transitions: 0, maxSteps: 0, replayed: 0, samples: [], capped: false, bound: 0 }
		t.executions += s.executions
		t.transitions += s.transitions
		t.replayed += s.replayed
		t.maxSteps = Math.max(t.maxSteps, s.maxSteps)
		t.capped ||= s.capped
		t.bound = s.bounds.at(-1)
		if (s.moving !== undefined) t.boundWithMovingClock = Math.min(t.boundWithMovingClock ?? Infinity, s.moving)
		if (s.executions && t.samples.length < 2) t.samples.push(...s.samples.slice(-1))
		per.set(s.name, t)
		for (const k of Object.keys(s.known)) foundKnown[k] = (foundKnown[k] ?? 0) + s.known[k]
	}
}
const list = [...per.values()]
const sum = f => list.reduce((a, s) => a + f(s), 0)
const capped = list.some(s => s.capped)
const evidence = {
	property: id,
	tier: tier === 'thorough' ? 'thorough' : 'quick',
	seed,
	level: 'model_checking',
	coverage: {
		states: states.size,
		transitions: sum(s => s.transitions),
		executions: sum(s => s.executions),
		distinct_outcomes: outcomes.size,
		traces_validated_against_impl: sum(s => s.executions),
		executions_replayed_for_determinism: sum(s => s.replayed),
		exhaustive: !capped && !violation,
		capped,
		scenarios: list.map(({ samples, ...s }) => s),
		samples: list.flatMap(s => s.samples).slice(0, 16),
		explanation:
			'Every execution within the stated bounds was run on the real code (bundled from the working tree), on fresh module instances; states are distinct canonical model/observation states, transitions are operations executed outside replayed prefixes.'
	},
	assumptions: check.assumptions ?? [],
	wall_s: (Date.now() - t0) / 1000,
	violations: violation ? 1 : 0
}
fs.mkdirSync(path.join(root, 'evidence'), { recursive: true })
if (!only) fs.writeFileSync(path.join(root, 'evidence', `${id}.json`), `${JSON.stringify(evidence, null, 1)}\n`)

for (const k of known) {
	if (foundKnown[k.key]) console.log(`KNOWN-FINDING: property=${id} ${k.what} [${k.key}; ${foundKnown[k.key]} executions]`)
}
for (const s of list)
	console.log(
		`${s.name}: bound ${s.bound}, ${s.executions} executions, ${s.transitions} transitions${s.capped ? ' (CAPPED)' : ''}`
	)
console.log(
	`${id} ${tier}: ${evidence.coverage.states} states, ${evidence.coverage.transitions} transitions, ${evidence.coverage.executions} executions, ${outcomes.size} outcomes, ${evidence.wall_s.toFixed(1)} s`
)
if (violation) {
	const dir = path.join(root, 'replays')
	fs.mkdirSync(dir, { recursive: true })
	const f = path.join(dir, `${id}.json`)
	fs.writeFileSync(f, `${JSON.stringify({ property: id, tier, ...violation }, null, 1)}\n`)
	console.log(`scenario ${violation.scenario}, choices ${JSON.stringify(violation.choices)}`)
	for (const l of violation.trace) console.log(`  ${l}`)
	console.log(`  => ${violation.message}`)
	console.log(`replay: node run.mjs ${id} --replay ${f}`)
	console.log(`VIOLATION property=${id} replay=${f}`)
	process.exit(1)
}
process.exit(0)

function readKnown() {
	const f = path.join(root, 'known-findings.txt')
	if (!fs.existsSync(f)) return []
	return fs
		.readFileSync(f, 'utf8')
		.split('\n')
		.map(l => /^known: property=(\S+) key=(\S+) (.*)$/.exec(l))
		.filter(m => m && m[1] === id)
		.map(m => ({ key: m[2], what: m[3] }))
}
