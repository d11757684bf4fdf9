// Bundles the packages of /repo's working tree (their src/, through their public entry points) into one
// function `(env names...) => namespace`. Calling the function gives a completely fresh instance of every
// module (the repository's and its dependencies'), living in the environment passed in.
import { createRequire } from 'node:module'
import fs from 'node:fs'
import path from 'node:path'

const require = createRequire('/opt/veriftools/node/node_modules/')
const esbuild = require('esbuild')

export const REPO = process.env.VERIF_REPO ?? '/repo'

/** name -> directory of every workspace package */
export function packages() {
	const out = {}
	for (const group of ['frameworks', 'libraries', 'plugins', 'presets']) {
		const dir = path.join(REPO, group)
		if (!fs.existsSync(dir)) continue
		for (const d of fs.readdirSync(dir)) {
			const pj = path.join(dir, d, 'package.json')
			if (fs.existsSync(pj)) out[JSON.parse(fs.readFileSync(pj, 'utf8')).name] = path.join(dir, d)
		}
	}
	return out
}

/** The identifiers the bundle sees as parameters instead of the real globals. */
export const ENV_NAMES = [
	'globalThis',
	'window',
	'self',
	'global',
	'document',
	'navigator',
	'location',
	'history',
	'localStorage',
	'sessionStorage',
	'fetch',
	'addEventListener',
	'removeEventListener',
	'console',
	'Math',
	'Date',
	'performance',
	'setTimeout',
	'clearTimeout',
	'setInterval',
	'clearInterval',
	'requestAnimationFrame',
	'cancelAnimationFrame',
	'requestIdleCallback',
	'cancelIdleCallback'
]

/**
 * @param {Record<string,string[]>} entries  alias -> [import specifier, ...names], e.g. {states: ['@just-web/states', 'createStore']}
 * @returns {Promise<{code: string, inputs: string[]}>}
 */
export async function bundle(entries) {
	const pkgs = packages()
	const list = Object.entries(entries).map(([alias, [spec, ...names]]) => ({ alias, spec, names }))
	const contents = [
		...list.map(
			e => `import { ${e.names.map(n => `${n} as ${e.alias}_${n}`).join(', ')} } from ${JSON.stringify(e.spec)}`
		),
		`export const all = {${list
			.map(e => `${e.alias}: {${e.names.map(n => `${n}: ${e.alias}_${n}`).join(', ')}}`)
			.join(', ')}}`
	].join('\n')
	const r = await esbuild.build({
		stdin: { contents, resolveDir: path.join(REPO, 'presets/browser'), sourcefile: 'verif-entry.ts', loader: 'ts' },
		bundle: true,
		write: false,
		format: 'iife',
		globalName: '__verif',
		platform: 'browser',
		mainFields: ['module', 'main'],
		target: 'es2022',
		treeShaking: true,
		metafile: true,
		logLevel: 'silent',
		legalComments: 'none',
		absWorkingDir: REPO,
		define: { 'process.env.NODE_ENV': '"development"' },
		plugins: [
			{
				name: 'workspace',
				setup(b) {
					b.onResolve({ filter: /^@just-web\// }, async args => {
						for (const name of Object.keys(pkgs)) {
							if (args.path === name) return { path: path.join(pkgs[name], 'src/index.ts') }
							if (args.path === `${name}/testing`) return { path: path.join(pkgs[name], 'src/testing/index.ts') }
						}
						return undefined
					})
				}
			}
		]
	})
	// esbuild's interop helper defines a getter per export, which is most of the cost of a fresh instance:
	// by the time it is called the (CommonJS) module is loaded, so its values can be copied.
	const code = r.outputFiles[0].text.replace(
		'var __copyProps = (to, from, except, desc) => {',
		"$&\n    if (from) for (const k of Object.getOwnPropertyNames(from)) if (k !== except && !(k in to)) to[k] = from[k];\n    return to;"
	)
	return { code, inputs: Object.keys(r.metafile.inputs) }
}

/** @returns {(env: Record<string, any>) => any} instantiates the bundle in `env` */
export function instantiator(code) {
	const f = new Function(...ENV_NAMES, `${code}\nreturn __verif.all`)
	return env => f.apply(env.globalThis, ENV_NAMES.map(n => env[n]))
}
