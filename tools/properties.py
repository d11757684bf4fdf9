#!/usr/bin/env python3
"""Writes properties.jsonl (the source of it is this file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=observe, hook_needed=None)))
ST='libraries/states/src/'
p('C01','Every change of a value is notified exactly once, in order, with both values',
  'Whenever the value of a state, store or registry changes, by whatever setter, updater or reset, every handler subscribed at that moment is called exactly once, in subscription order, with the new value and the value it replaced, and reading the value inside the handler gives the new one. An operation which leaves the value identical (Object.is) notifies nobody. Every handler learns of the changes in the order in which they happened, including changes made by other handlers.',
  ['histories','inputs'],'every sequence of sets, updaters, resets and subscriptions, over falsy and special primitives, nested objects, several containers sharing handlers, and handlers changing the value themselves',
  'The tests subscribe one handler and make one or two changes with ordinary numbers; order, duplicates, no-op changes, special values and combined histories are not reached.',
  [ST+'state.ts',ST+'store.ts',ST+'registry.ts',ST+'states_gizmo.ts'],[('change notification loop over the subscribed handlers',ST+'state.ts'),('store mirror kept by an internal handler',ST+'store.ts')],
  ['calls of handlers given to onChange()','return value of set()','get() inside a handler'],[('handlers','subscribers in order',ST+'state.ts'),('value','current value',ST+'state.ts')])
p('C02','Unsubscribing affects that subscription only, at once, and may be repeated',
  'After the function returned by a subscription is called, that handler is not called any more, even for a change being notified at that moment, and every other subscriber and the value itself behave as if nothing happened. Calling it again, at any later time, has no effect, even if the same handler has been subscribed again since. Subscribing a handler which is already subscribed has no effect: it is still called once per change, and the function returned for the duplicate unsubscribes nothing.',
  ['histories'],'every interleaving of subscribing, unsubscribing (each returned function, any number of times), changes, and handlers which unsubscribe or subscribe while being notified',
  'The tests unsubscribe one handler once, outside of any notification.',
  [ST+'state.ts',ST+'store.ts',ST+'registry.ts'],[('subscription list and the returned disposer',ST+'state.ts')],['calls of handlers','get()'],[('handlers','subscribers in order',ST+'state.ts')])
p('C03','Reads give the last committed value; reset restores the initial one',
  'Reading a store or a registry, directly or through its read-only view, always gives the value of the last successful change, whatever that value is (including undefined, null, NaN, empty values and functions), and resetting gives back the initial value. A read-only view offers no way to change the value. Containers created through an app behave the same as the ones created directly.',
  ['histories','inputs'],'every sequence of sets (values, updaters, cleared values), resets and reads over value domains including functions as values, for each kind of container',
  'The tests set one value and read it back; they do not combine resets with cleared, falsy or function values nor compare views along a history.',
  [ST+'state.ts',ST+'store.ts',ST+'registry.ts',ST+'states_gizmo.ts'],[('set/reset',ST+'state.ts'),('get through the mirror',ST+'store.ts'),('read-only views',ST+'store.ts')],['get() of store and views','keys of the views'],[('state[0]','mirror of the value',ST+'store.ts')])
p('C04','State data is immutable except through its setters; a failed update is no update',
  'Nothing reachable from a value held by a state, store or registry, at any depth, can be modified from outside: not through the value read, not through the value given to it, and not through values given to handlers. Values read earlier keep their content whatever changes later. An updater which throws, whatever it edited before, leaves the value identical, notifies nobody, passes the error to the caller and does not disturb later updates.',
  ['histories','inputs'],'every sequence of edits, replacements, resets and failing updaters, each followed by attempts to modify every object reachable from the current, delivered, supplied and earlier values',
  'The tests try a write on one top-level property of one value.',
  [ST+'state.ts',ST+'adder.ts'],[('freezing and copy-on-write updates',ST+'state.ts')],['deep content of values read before and after attempted writes'],[('value','current value',ST+'state.ts')])
p('C05','An async update commits exactly once, when it settles, in every settlement order',
  'An asynchronous updater changes nothing until its promise settles; then its resolved value (also null, false, 0 or an empty string) is committed once, or its in-place edits if it resolves to undefined, or the value is cleared if it resolves to the clearing token, and the promise returned resolves to the committed value. Subscribers are notified once, with the value actually replaced, whatever other synchronous or asynchronous updates happened meanwhile, and an updater which changes nothing reverts nothing. If it rejects, the returned promise rejects with the same error, and value and subscribers are untouched.',
  ['schedules','histories'],'every way of starting up to three overlapping asynchronous updaters of every result kind, interleaved with synchronous sets and resets, and every order in which they settle or reject',
  'The tests await one updater at a time, resolving to a truthy value.',
  [ST+'state.ts'],[('commit when the updater promise settles',ST+'state.ts')],['get(), handlers and returned promises at every settlement'],[('value','current value',ST+'state.ts')])
p('C06',"A registry's keys, has, size and values always agree with its content",
  'At any time the keys of a registry are exactly the string and symbol keys of its content, a key exists in it exactly when it is listed, its size is the number of keys and its values are the contents of the keys in the same order, for every key including names of built-in object members, numeric names, empty names and symbols, and also when the entry holds undefined or another falsy value. Its read-only view always gives the same answers.',
  ['histories','inputs'],'every sequence of adding, replacing, deleting entries and resetting over hostile key names and falsy entries',
  'The tests use one or two ordinary keys with truthy entries.',
  [ST+'registry.ts'],[('keys/has/size/values derived from the content',ST+'registry.ts')],['keys(), has(), size(), values() and get()'],[])
p('C07','Adders add all the given entries, in order, as one single change',
  'Adding entries applies the adding rule to each entry in the given order, each seeing the result of the previous ones, and publishes the result as one single change, or none if nothing was added. It gives the same content as adding the entries one at a time. A container extended with an adder keeps all of its other operations working, on the same content.',
  ['histories','inputs'],'every sequence of add calls with 0..3 entries, with push, unshift and custom rules (keyed, first-wins, throwing), mixed with sets, resets and subscriptions',
  'The tests add one or two entries once and look at the final content.',
  [ST+'adder.ts'],[('adder over one update',ST+'adder.ts')],['get(), handlers'],[])
A='frameworks/app/src/'
p('C08','An app is assembled in the order declared, completely or not at all',
  'Creating an app creates its gizmos one after another in the order they were added, each seeing everything the earlier ones provide (a later one overriding names of an earlier one), however long each takes; the caller, and the start function if one is given, get the complete app. If any part fails the creation fails with that error, and nothing added after it is created or started. The creation of the app is logged exactly once, with its id, after everything succeeded, and never when it failed.',
  ['schedules','configurations','fault_sequences'],'every combination of synchronous, asynchronous, two-phase, failing and overriding gizmos, start functions and settlement orders, up to three gizmos and two apps created concurrently',
  'The tests create apps from one or two immediately available gizmos.',
  [A+'just_app.logic.ts',A+'just_app.ts',A+'just_app.testing.ts','frameworks/log/src/log_gizmo.ts'],[('incubator with wrapped create',A+'just_app.logic.ts')],['order of create calls, created app, log entries'],[])
p('C09','Every app instance has its own name, options and a 15 character id',
  'Every app created has an id of exactly 15 lowercase letters and digits, whatever random numbers are drawn, and its id is fixed from its creation on and visible to all its gizmos. Each creation draws its own id, so apps created with distinct random numbers, even of the same name and concurrently, have distinct ids. The name is exactly the one given.',
  ['inputs','histories'],'every pair of values of the random source over short, long, zero and extreme expansions, and every interleaving of creating apps',
  'The test draws 100 random ids and compares them; the short expansions of the random source have a probability too small to be sampled.',
  ['frameworks/id/src/id_gizmo.logic.ts','frameworks/id/src/id_gizmo.ts','frameworks/id/src/id_gizmo.testing.ts'],[('id generation','frameworks/id/src/id_gizmo.logic.ts')],['id and name of the app'],[])
L='frameworks/log/src/'
p('C10',"Log entries carry the app's id, obey the level, reach only that app's reporters",
  'Every entry logged through an app, or through any logger obtained from it, reaches each reporter of that app exactly once (of a non-console logger: each but the console) and no other app, with the name of the app, followed by the logger id (and by any prefix) after a colon, and with the level of the method used, including custom levels. Entries above the configured level of verbosity are not reported. Asking for a logger again with the same id gives one whose entries are indistinguishable.',
  ['configurations','histories'],'every combination of app names, logger ids, prefixes, levels, methods, custom levels and reporters, for two apps alive at once',
  'The tests look at one message of one logger of one app at the default level.',
  [L+'log_gizmo.logic.ts',L+'log_gizmo.ts',L+'log_gizmo.testing.ts',L+'logger.ts'],[('per-app log context with prefixed loggers',L+'log_gizmo.logic.ts')],['entries received by the reporters'],[])
C='plugins/commands/src/'
p('C11','Invoking a command runs exactly its latest handler, with its arguments',
  'Invoking a registered command calls the handler registered last for that id, once, with exactly the arguments given, and gives back its result or its error; no other handler runs. Invoking an id which is not registered runs nothing and logs one error naming it, also when the id is the name of a built-in object member; registering over an existing handler logs one notice. The ids listed and reported as existing are exactly the ones registered.',
  ['histories','inputs'],'every sequence of registrations and invocations over hostile ids, handlers that return, throw or register others, pre-filled or not',
  'The tests register one handler and invoke it once without arguments.',
  [C+'handlers.ts',C+'commands_gizmo.ts'],[('handler registry',C+'handlers.ts')],['handler calls, results and log entries'],[('registry','handlers by id',C+'handlers.ts')])
p('C12','A command reaches the right handler before and after it is connected',
  'Calling a command connected to an app invokes, in the app it was connected to last, the handler currently registered for its id, with the arguments and the result passed through; before that it runs its default handler, or logs one error and does nothing if it has none. Connecting registers the handler given, or else the default one, and adds its contribution and its key binding, if it was declared with them, exactly once; a command declared by id alone contributes nothing. Connecting without any handler registers nothing.',
  ['histories','configurations'],'every sequence of calling, connecting (with or without handler, to one of two apps, with or without keyboard), defining and replacing handlers',
  'The tests connect a command once and call it once, in fixed orders.',
  [C+'command.ts',C+'commands_gizmo.ts'],[('command closure over the connected app',C+'command.ts')],['handler calls, results, contributions and key bindings of each app, log entries'],[])
p('C13','The first contribution for a command id wins, and duplicates are reported',
  'Of all contributions added for the same id, the first one is kept, unchanged, and every later one is ignored and reported once in the log of the app, whether they are added in the same call or not, pre-filled or not, for commands and for key bindings. Contributions with other ids are all kept. A duplicate changes nothing and notifies nobody.',
  ['histories','inputs'],'every sequence of additions of one to three contributions over colliding and hostile ids, starting empty or pre-filled, with resets',
  'The tests add two contributions in one fixed order.',
  [C+'contributions.ts','plugins/keyboard/src/keyBindings.ts'],[('first-wins adder',C+'contributions.ts'),('first-wins adder','plugins/keyboard/src/keyBindings.ts')],['content, handlers, log entries'],[])
p('C14','Titles and keys shown for a command follow its id and the platform',
  'The title of a command is the given one, even an empty one, or else the part of its id after the first dot (the whole id if there is none) as a sentence; id and description are passed on unchanged. The key of a key binding is, on a Mac, its Mac key if there is one and otherwise its default key, and elsewhere always its default key. The platform is a Mac exactly when the browser or the injected test platform says so.',
  ['inputs','configurations'],'every combination of id shapes, titles, descriptions, key and mac keys and platforms of a small alphabet',
  'The tests format one command and three key bindings.',
  [C+'formatCommand.ts','plugins/keyboard/src/keyBindings.ts','plugins/os/src/os.ts','plugins/os/src/os.ctx.ts','plugins/os/src/os_gizmo.mocks.ts'],[('title generation',C+'formatCommand.ts'),('key selection','plugins/keyboard/src/keyBindings.ts'),('platform detection','plugins/os/src/os.ts')],['returned objects'],[])
R='plugins/preferences/src/'
p('C15','In-memory preferences behave as a map from keys to strings',
  'Reading a preference gives the last value set for that key, or the default given for the read if there is none; setting with a function replaces the value by its result, computed from the current value; setting undefined or the clearing token, or a function returning it, removes the preference. Keys never influence each other, whatever their names, and clearing removes all of them. The same holds through the shared preference commands.',
  ['histories','inputs'],'every sequence of set (value, function, removal), get with or without default and clear over hostile keys and values, through the app or the commands',
  'The tests set one key and read it back.',
  [R+'memory_preferences_gizmo.ts',R+'preferences_gizmo.ts',R+'preferences.ts'],[('record storage behind the commands',R+'memory_preferences_gizmo.ts')],['results of get'],[('storage','preferences by key',R+'memory_preferences_gizmo.ts')])
B='plugins/browser-preferences/src/'
p('C16','Browser preferences persist, per app name, and touch nothing else in the storage',
  'A preference set in the browser can be read back, unchanged for every text, by the same app and by an app of the same name created later on the same storage, and is invisible to apps of other names (without colons). Setting, removing and clearing preferences of an app changes no entry of the storage which is not one of its preferences, and clearing removes all of its preferences. The stored entries are found only under keys starting with the app name and a colon.',
  ['histories','inputs','configurations'],'every sequence of set, remove, get, clear and restart by apps whose names contain or prefix one another over one storage holding foreign entries, with texts including empty, non-ASCII and serialised ones',
  'The tests use one app, one key and ASCII texts.',
  [B+'browser_preferences_gizmo.ts'],[('namespaced, encoded storage entries',B+'browser_preferences_gizmo.ts')],['results of get','all entries of the storage'],[('localStorage','persisted preferences','the page')])
p('C17','A preference update is done when its promise says so, and failures are reported',
  'When the promise returned for an asynchronous preference update resolves, the new value has been written and can be read; until it resolves the old value is read. If the updater throws or rejects, or the storage refuses the write, the caller is told (by the exception or by the rejection of the promise), the stored value is the one before, and later updates work. No failure is silently dropped or surfaces as an unhandled rejection.',
  ['schedules','fault_sequences'],'every interleaving of up to three overlapping updates (settling, rejecting, throwing) on one or two keys with storage faults at every write, in memory and in the browser',
  'The tests await a single update that succeeds at once.',
  [B+'browser_preferences_gizmo.ts',R+'memory_preferences_gizmo.ts',R+'preferences_gizmo.ts'],[('promise chaining of the update',B+'browser_preferences_gizmo.ts')],['promises, exceptions, storage and reads at every settlement'],[])
p('C18','A typed preference store round-trips every JSON value and its updates',
  'A preference store gives back every JSON value set, including null, false, 0, empty texts and nested data, as an equal value, its default when there is none, and gives the same to every other store of the key. An updater receives the current value (or the default) and its result, or its in-place edits if it returns nothing, becomes the value; setting undefined or the clearing token, or returning the token, removes it. Updating never changes the default value nor values read before.',
  ['histories','inputs'],'every sequence of set, update (returning, editing in place, clearing, asynchronous), get over JSON values and defaults, by two stores of the same key, in memory and in the browser',
  'The tests make one update per store.',
  [R+'preferences_gizmo.ts'],[('JSON store over the preferences',R+'preferences_gizmo.ts')],['results of get of each store, default objects'],[])
p('C19','Apps living on the same page do not interfere with one another',
  'Whatever one app does with its states, commands, contributions, key binding registrations, preferences, language, routes, events and log, no other app on the page observes it through its own interfaces, except for preferences and language persisted by an app of the same name. This holds whichever app was created first, last, or in between.',
  ['histories','configurations'],'every sequence of operations on two apps created before, after or between them, comparing every observation of each app with the app running alone',
  'The tests create one app per test.',
  [C+'command.ts',C+'commands_gizmo.ts',R+'preferences_gizmo.ts','plugins/i18n/src/i18n_gizmo.ts','plugins/routes/src/routes_gizmo.ts'],[('per-app closures; module level command objects',C+'command.ts')],['every public read of the other app'],[])
p('C20','Memory and browser preferences are interchangeable',
  'Any sequence of preference operations gives the same results, errors included, whether the app keeps its preferences in memory or in the browser storage.',
  ['histories'],'every sequence of preference operations of a broad alphabet (values, updaters, removals, stores, async updaters, clear), run side by side on both',
  'Each implementation is tested alone, with different examples.',
  [B+'browser_preferences_gizmo.ts',R+'memory_preferences_gizmo.ts'],[('two implementations of the same commands',R+'preferences.ts')],['results of every operation'],[])
K='plugins/browser-keyboard/src/'
p('C21','Pressing a bound key invokes exactly its command; anything else invokes nothing',
  'At any time, pressing the key of a key binding contribution invokes its command once and prevents the default action of the browser, for contributions made before or after the app started; of several contributions for the same key the first is bound and the others are reported. On a Mac the Mac keys are bound, elsewhere the default keys. Keys whose contribution has been removed, or never existed, invoke nothing.',
  ['histories','configurations'],'every sequence of adding and removing contributions and pressing keys (with and without modifiers, sequences of keys), on both platforms',
  'The tests bind one key and trigger the library callback directly.',
  [K+'keyBindings.ts',K+'browser_keyboard_gizmo.ts'],[('rebinding on change of the contributions',K+'keyBindings.ts')],['command invocations per simulated key event','preventDefault','log'],[('keys','keys bound',K+'keyBindings.ts')])
I='plugins/i18n/src/'
p('C22','The current language is the last one set, and every listener is told in order',
  'The current language is always the last one set, by the app, or through the language command of the app, initially the configured one. Every listener registered is called once per change, in registration order, with the new and the previous language, and reads the new language. Without command support everything but the command works the same.',
  ['histories','configurations'],'every sequence of setting languages (directly, by command, by invoking), registering listeners and reading, with or without commands',
  'The tests set one language with one listener.',
  [I+'i18n_gizmo.ts',I+'commands.ts'],[('listener list',I+'i18n_gizmo.ts')],['getLanguage(), listener calls'],[])
p('C23','The chosen language survives restarts, per app, until it is cleared',
  'A browser app starts with the language chosen last by an app of the same name on that browser, and with the language of the browser if none was chosen or the choice was cleared; clearing switches to the language of the browser at once. Choices of apps with other names, and all other entries of the storage, are neither used nor changed.',
  ['histories','crash_points'],'every sequence of choosing, clearing, restarting at any point and changing the language of the browser, by apps of two names on one storage',
  'The tests cover a single choice or a single clear.',
  ['plugins/browser-i18n/src/browser_i18n_gizmo.ts','plugins/browser-i18n/src/browser_i18n_gizmo.ctx.ts'],[('language entry of the storage','plugins/browser-i18n/src/browser_i18n_gizmo.ts')],['getLanguage(), storage'],[])
T='plugins/routes/src/'
p('C24','Navigation runs exactly the handler of the registered route',
  'Navigating runs, once, the handler registered for that route, or for the configured initial route if none is given, and nothing else; a route exists exactly from its registration until it is unregistered or all routes are cleared. Registering an existing route is refused, logged as an error, and leaves the first handler in place; navigating to an unknown route runs nothing and logs an error, also for names of built-in object members. An unregister function only ever removes its own registration, and only once.',
  ['histories','inputs'],'every sequence of register, unregister (any returned function, repeatedly), clear, configure and navigate over hostile route names',
  'The tests register one route and navigate to it.',
  [T+'routes_gizmo.ts'],[('route store',T+'routes_gizmo.ts')],['handler calls, hasRoute(), log'],[('routes','handlers by route',T+'routes_gizmo.ts')])
W='plugins/browser/src/'
p('C25','Every uncaught browser error is captured once, in order, until cleanup',
  'Every error event of the page from the creation of the app until its cleanup is appended to its errors exactly once, in order, with the message, source, line, column and original error, is announced to subscribers and logged once as an error, whatever was thrown. The default action is prevented exactly if configured. Errors already captured never change, and after the cleanup nothing is captured any more.',
  ['histories','inputs','configurations'],'every sequence of error events of different shapes, subscriptions, cleanups and apps created, with both settings',
  'The tests raise one error.',
  [W+'browser_gizmo.ts',W+'error_store.ts',W+'errors.ts'],[('window error listener',W+'browser_gizmo.ts')],['errors, handlers, log, preventDefault, listeners of the page'],[])
p('C26','Platform services of an app are the supplied ones, else those of the page',
  'The fetch, storages, navigator, location, history and message formatter an app exposes are the ones supplied through options, else the ones provided by an earlier gizmo where supported, else the ones of the page, each chosen independently of the others, for the real and for the test gizmos. Using them reaches exactly that service.',
  ['configurations'],'every combination of supplied and missing services for each gizmo and order of gizmos',
  'The tests supply one service at a time.',
  [W+'browser_gizmo.ts',W+'browser_gizmo.testing.ts','plugins/fetch/src/fetch_gizmo.ts','plugins/history/src/history_gizmo.ts','plugins/formatjs/src/formatjs_gizmo.ts'],[('option / context / page precedence',W+'browser_gizmo.ts')],['services of the app; calls received by each candidate'],[])
E='plugins/events/src/'
p('C27','A failing event listener is logged and never breaks the one who emits',
  'Emitting an event delivers it, with its arguments, to the listeners of that event in order; if a listener throws, whatever it throws, the error is logged once on the app and the one who emits is not affected, and later events are delivered as usual. The emitter supplied is the one used, otherwise each app has its own.',
  ['histories','fault_sequences'],'every sequence of subscribing (on, once, off), emitting and failing of listeners over several events, with supplied and default emitters',
  'The tests make one listener throw once.',
  [E+'events_gizmo.ts'],[('error trapping around emit',E+'events_gizmo.ts')],['listener calls, results of emit, log'],[])
p('C28','The storage test doubles behave as a storage',
  'The in-memory storage double gives, for every sequence of operations, the same answers as a browser storage: items, length, keys by index in a stable order, removal, clearing. The stubs of the page storages answer with the stubbed members where given and otherwise behave, in every member, as the real storage.',
  ['histories','configurations'],'every sequence of storage operations over hostile keys and values, against a reference storage, and every subset of stubbed members',
  'The tests call some members once.',
  [W+'browser_gizmo.testing.ts',W+'testing/storage.mocks.ts'],[('map based storage',W+'browser_gizmo.testing.ts'),('stub proxies',W+'testing/storage.mocks.ts')],['results of every storage operation'],[])
p('C29','The browser preset provides the same services as its parts assembled by hand',
  'An app built with the browser preset offers exactly the browser services, preferences and history that its parts offer when added one by one with the same options, behaving the same, and leaves the identity, log, commands and keyboard of the app untouched. The test preset does so with the test doubles given, and a memory history by default.',
  ['configurations','histories'],'every combination of options and every short sequence of operations, run side by side on the preset and on the parts',
  'The tests check that one member exists.',
  ['presets/browser/src/presets_browser_gizmo.ts','presets/browser/src/presets_browser_gizmo.mocks.ts'],[('composition of the gizmos','presets/browser/src/presets_browser_gizmo.ts')],['members of the app, results of every operation'],[])
p('C30','Logging never changes what an app does and stays in the log of the app',
  'What the services of an app report (states, commands, contributions, key bindings, routes, preferences, language, events, errors) goes to the log of that app under its name, or to the logger supplied for a state, and nowhere else. The verbosity chosen decides only which of the entries are reported: results, notifications and everything else an app observes are the same at every verbosity, and the entries reported are exactly the ones of that level and below.',
  ['histories','configurations'],'every sequence of operations covering every plugin at every verbosity, against the same history with everything logged; every kind of container and logger supplied',
  'The tests use one verbosity each, and look for one entry.',
  ['libraries/states/src/states_gizmo.ts','libraries/states/src/state.ts','frameworks/log/src/log_gizmo.logic.ts','plugins/commands/src/handlers.ts'],[('logger of a container','libraries/states/src/state.ts')],['results, observations and log entries'],[])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        assert x['statement'].count('. ')<=2,(x['id'],x['statement'].count('. '))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
