// Shared pieces of the checks of commands and key bindings.
export const entries = {
	app: ['@just-web/app', 'justApp', 'define', 'createMemoryLogReporter', 'logLevels'],
	appT: ['@just-web/app/testing', 'justTestApp'],
	commands: ['@just-web/commands', 'command', 'commandsGizmoFn', 'formatCommand', 'showCommandPalette'],
	keyboard: ['@just-web/keyboard', 'keyboardGizmoFn', 'formatKeyBinding', 'keyBindingRegistry'],
	os: ['@just-web/os', 'osGizmo', 'isMac'],
	osT: ['@just-web/os/testing', 'osTestGizmoFn']
}

export const ERROR = 400
export const WARN = 500
export const NOTICE = 600

/** An app with commands and, unless keyboard is false, key bindings; its log entries at notice level or above. */
export async function makeApp(m, { name = 'x', keyboard = true, contributions, handlers, keyBindingContributions, logLevel } = {}) {
	const reporter = m.app.createMemoryLogReporter({ id: `mem-${name}` })
	let b = m.appT.justTestApp({ name, log: { reporters: [reporter], ...(logLevel !== undefined && { logLevel }) } })
	if (keyboard) b = b.with(m.keyboard.keyboardGizmoFn(keyBindingContributions ? { keyBindingContributions } : undefined))
	b = b.with(m.commands.commandsGizmoFn(contributions || handlers ? { contributions, handlers } : undefined))
	const app = await b.create()
	return { app, takeLogs: () => reporter.logs.splice(0).filter(e => e.level <= NOTICE).map(e => ({ id: e.id, level: e.level, text: e.args.join(' ') })) }
}
