#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
PM, SW, PL, ST, BU, HU = "pluginManager.go", "pluginManagerSwapper.go", "plugin.go", "staticPlugin.go", "cli/hotswap/cmd/build.go", "internal/hutils/hutils.go"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "A failed load or reload changes nothing",
 "When LoadPlugins, Reload or ReloadWithCallback returns an error or panics, Current() still returns exactly the manager it returned before the call. The plugins of that manager stay in service: nothing releases them and their release is not scheduled.",
 ["fault_sequences", "histories"], "Every point at which a load can fail: I/O, opening, a plugin function returning an error or panicking, dependency checks, vault setup, reload callbacks.",
 "The tests fail a load at a dozen chosen points, most of them below the public API, and none looks at Current() or at the old generation afterwards.",
 [SW, PM, ST], [("the new manager is stored last, after every fallible step", SW+" loadPluginFiles, loadStaticPlugins"), ("the release of the old manager is scheduled on the success path only", SW+" loadPluginFiles")],
 [("current", "the published manager", SW)], ["PluginManagerSwapper.Current"])

prop("C02", "Only a fully initialised generation is ever published",
 "A manager becomes visible through Current() only after every new plugin in it has been opened, bound and wired to its dependencies, every OnLoad, the vault setup and every OnInit has succeeded, and every configured reload callback has returned without an error. A call that reports success after finding at least one plugin publishes exactly one manager: the one it has just loaded.",
 ["inputs", "fault_sequences"], "Every combination of plugins, callbacks and failures, in dynamic and static mode.",
 "Tests check a few successful loads; that no stage can be skipped on any path, for any number of plugins and either callback, is a statement about all paths.",
 [SW, PM, ST], [("stage sequence", PM+" loadPlugins; "+ST+" loadStaticPlugins"), ("reload callbacks before the store", SW+" invokeReloadCallbacks")],
 [("current", "the published manager", SW)], ["PluginManagerSwapper.Current"])

prop("C03", "Lifecycle functions run in the documented order, once per new plugin",
 "For every newly loaded plugin, Reloadable, Export, Import, OnLoad and OnInit are invoked exactly once each, in that order, in dynamic as well as in static mode. All Exports precede the first Import, all Imports precede the first OnLoad, all OnLoads precede the vault setup, and the vault is completely set up before the first OnInit.",
 ["inputs", "configurations"], "Every set of plugins and either linking mode.",
 "Tests observe the order for single plugins or fixed small sets; the stage barriers quantify over all plugin sets.",
 [PM, ST, PL], [("stage loops over the ordered plugins", PM+" loadPlugins, invokeEveryOnLoad, setupVault, invokeEveryOnInit"), ("static twin", ST+" loadStaticPlugins")])

prop("C04", "A reused plugin is never initialised again",
 "A reload carries over, without opening it again, every plugin which is not reloadable or whose file content is unchanged, and only those. The Reloadable, Export, Import, OnLoad and OnInit functions of a plugin that is carried over are not invoked by that reload.",
 ["histories", "inputs"], "Every sequence of reloads and every mixture of changed, unchanged and not reloadable plugins.",
 "Tests reload one or two plugins a few times; the guarantee is over all histories and mixtures.",
 [PM], [("selection of the reused plugins", PM+" removeNotReloadable, removeUnchanged"), ("skips guarded by the reuse mark", PM+" initDeps, invokeEveryOnLoad, invokeEveryOnInit"), ("copy with the mark set", PM+" addUnchanged")],
 [("unchanged", "the plugin was carried over from the previous generation", PL)])

prop("C05", "Plugins are visited in dependency order, and freed in reverse",
 "Plugins(), OnLoad, OnInit and InvokeEach visit a plugin only after all the plugins it imports, and visit every plugin of the manager. InvokeEachBackward, and OnFree of a manager whose plugins have been ordered, visit the same plugins in exactly the opposite order.",
 ["inputs"], "Every dependency graph.",
 "Tests use graphs of at most four plugins.",
 [PM], [("placement only after all dependencies", PM+" orderPlugins"), ("forward and backward scans", PM+" invokeEveryOnLoad, invokeEveryOnInit, invokeEveryOnFree, InvokeEach, InvokeEachBackward")],
 [("ordered", "the plugins in dependency order", PM)], ["PluginManager.Plugins"])

prop("C06", "OnFree runs once, and only when no generation uses the plugin",
 "Every generation which contains a plugin holds exactly one reference to it, acquired when the plugin joins the generation and given up when the generation is released. OnFree of a plugin version is invoked only by the release that gives up the last reference, and at most once.",
 ["histories", "schedules"], "Every history of successful and failed reloads which carry plugins over, and every interleaving of delayed releases with loads.",
 "Tests check two reference counts after a short fixed history; pairing over all histories and racing releases is out of their reach.",
 [PM, PL], [("reference taken on reuse", PM+" addUnchanged"), ("reference dropped, result tested, once guard", PM+" invokeEveryOnFree"), ("initial reference and once guard shared by the copies", PL+" newPlugin")],
 [("Refs", "number of generations holding the plugin", PL), ("freeOnce", "guards OnFree", PL)])

prop("C07", "A replaced generation is released only after the free delay",
 "After a successful load of plugin files which replaces a manager, exactly one release of the replaced manager is scheduled, in the background. It starts no earlier than the longer one of the configured free delay and the built-in minimum, and no code path releases a replaced or current manager sooner.",
 ["schedules", "configurations"], "Every configured delay and every path which can reach a release.",
 "Tests use one delay and poll once after it; that no path frees early or twice is a statement about all paths.",
 [SW], [("sleep before the release, in a goroutine", SW+" loadPluginFiles"), ("minimum delay", SW+" minFreeDelay")])

prop("C08", "A panic in plugin code never crashes the host",
 "A panic raised by a plugin function invoked by the library while loading, reloading, broadcasting or releasing plugins, or by a reload callback, never propagates to the caller and never terminates a background goroutine unrecovered. While loading it is turned into the error of the call; while broadcasting or releasing it is logged.",
 ["fault_sequences", "inputs"], "Every plugin function, every call site, every panic.",
 "Tests panic in each function once, in one position; a new or moved call site outside of a recovery scope would not be noticed.",
 [PM, PL, SW, ST], [("recover in a deferred closure around each invocation", PM+", "+PL+", "+SW)])

prop("C09", "A broadcast reaches every plugin whatever the others do",
 "InvokeEach and InvokeEachBackward invoke InvokeFunc of every plugin of the manager exactly once, passing on the name and the parameters they were given. An error or a panic of one plugin is logged and never keeps the others from being invoked.",
 ["inputs", "fault_sequences"], "Every set of plugins and every combination of errors and panics.",
 "Tests broadcast to two plugins.",
 [PM], [("scan of all plugins with a recovery scope per plugin", PM+" InvokeEach, InvokeEachBackward")])

prop("C10", "No failure while loading is swallowed",
 "If anything a load depends on fails, be it reading the directory or a plugin file, copying, opening or binding a plugin, or a plugin function or a reload callback which returns an error or panics, then the call which performs the load returns a non-nil error.",
 ["fault_sequences"], "Every failing operation at every position.",
 "Tests inject a dozen failures; each error result of each operation has to be propagated on all paths.",
 [PM, SW, ST, PL], [("error propagation", PM+" loadPlugins, loadPlugin; "+SW+" loadPluginFiles; "+ST+" loadStaticPlugins")])

prop("C11", "A failed load releases everything it took hold of",
 "When a load fails after plugins have joined the new generation, the new generation is released exactly once before the error is returned: OnFree is invoked for the plugins it has just loaded, and the references to the plugins it shares with the previous generation are given back. A load which succeeds does not release its own generation.",
 ["fault_sequences"], "Every failure point between the first plugin joining and the publication.",
 "Tests look at OnFree messages after some failures, never at the references of shared plugins.",
 [PM, SW, ST], [("release in the deferred error handler", PM+" loadPlugins; "+ST+" loadStaticPlugins"), ("release when a callback fails", SW+" invokeReloadCallbacks")])

prop("C12", "Loads and reloads are serialised and never wedge the swapper",
 "At most one load or reload of a swapper is in progress at any time. Whatever way a load ends, by success, error or panic, the next one can proceed.",
 ["schedules", "fault_sequences"], "Every interleaving of concurrent calls and every way out of them.",
 "No test loads concurrently, and none panics through the host's own callbacks.",
 [SW], [("mutex held across the whole operation, released by defer", SW+" LoadPlugins, ReloadWithCallback")],
 [("mu", "serialises loads", SW)])

prop("C13", "A published manager is immutable",
 "Once a manager can be obtained through Current(), neither its set of plugins, their order, its vault maps nor any attribute of its plugins is modified by the library again; only reference counts change. A reload works on its own copies, so holders of an older manager keep seeing a consistent generation.",
 ["schedules", "histories"], "Every reader which runs concurrently with any number of reloads.",
 "Tests are sequential; a write to the shared state of an older generation shows only as a race or in a reader holding it.",
 [PM, SW, PL], [("plugins are copied before they are marked", PM+" addUnchanged"), ("writes go to the manager under construction", PM)])

prop("C14", "Plugin names are unique and matched case-insensitively",
 "A manager never contains two plugins whose names differ in letter case only: a load with such plugins, dynamic or static, fails before any plugin function has been invoked. FindPlugin, the matching of dependencies and the recognition of reloaded plugins ignore letter case.",
 ["inputs"], "Every set of file names, static plugin names and lookup keys.",
 "One test tries one set of colliding names; that every use of a name as a key is normalised is a property of all the code.",
 [PM, ST], [("normalisation of keys", PM+" name2key"), ("duplicate checks", PM+" loadPlugins; "+ST+" loadStaticPlugins")])

prop("C15", "The vault holds every live function and type, and none is shadowed",
 "After a successful load the vault contains all the live functions and live types of all the plugins of the manager, reused ones included, each under its own name. If two of them have the same name the load fails; no entry ever replaces another one.",
 ["inputs"], "Every set of plugins and live names.",
 "Two tests use one duplicate each.",
 [PM], [("insertion after an absence check", PM+" setupVault")],
 [("LiveFuncs, LiveTypes", "registries", "vault/vault.go")], ["Vault.LiveFuncs", "Vault.LiveTypes"])

prop("C16", "The recorded hash identifies the very bytes that were loaded",
 "The SHA-1 hash recorded for a plugin, on which the decision to reuse it rests, is computed from the same single read of the plugin file as the code which is opened, even if the file is replaced during the load. A plugin is treated as unchanged exactly if this hash equals the hash recorded for the plugin of that name in the current manager.",
 ["schedules", "inputs"], "Every concurrent modification of the plugin file.",
 "Tests never replace a file while it is being loaded.",
 [PM], [("one read, hash and copy made from it", PM+" buildFileInfoMap, add, copyPlugin, loadPlugin"), ("comparison of hashes", PM+" removeUnchanged")],
 [("FileSha1", "content hash of the loaded file", PL)], ["Plugin.FileSha1"])

prop("C17", "Loaded plugin images are private to the process and never rewritten",
 "The process never opens a plugin file in the plugin directory itself, but a copy of its content in a directory of its own. Neither the plugin file nor any copy that may have been opened is ever written to in place.",
 ["histories", "schedules"], "Every sequence of loads, including retries at once after a failure.",
 "Rewriting an opened image crashes the process only for particular timings; no test retries a failed load.",
 [PM], [("copy under the process specific directory, replaced by renaming", PM+" copyPlugin, replaceFile")])

prop("C18", "Each required function is bound to the plugin's function of that name",
 "In dynamic and in static mode, each of the nine required functions is bound to the function of that very name in the plugin, and a plugin lacking any of them is refused with an error naming all the missing ones. The static linking code generated by the command-line tool passes the functions in the order in which the library expects them.",
 ["configurations", "inputs"], "All nine functions, both modes, and the generated code.",
 "Functions of the same type can be exchanged without a compile error; tests exercise few functions through each path.",
 [PM, ST, BU, "cli/hotswap/cmd/hotswapStaticPluginInit.tpl", "cli/hotswap/cmd/hotswapMain.tpl"], [("symbol table", PM+" makePluginFuncItemList"), ("constructor", ST+" NewPluginFuncs"), ("generator table", BU+" parseRequiredPluginFuncs")])

prop("C19", "Dependencies are validated before any plugin is initialised",
 "Before the first OnLoad of a load, every exported field of every Import object that is not excluded by its tag has been matched with a plugin of the new generation and has received that plugin's exported value if there is one, and only a value assignable to it. The load fails if a field names no plugin, is embedded or has an incompatible type, if a plugin that is not reloadable depends on one that is, if a reused plugin depends on a plugin that was loaded anew, or if dependencies are cyclic.",
 ["inputs", "histories"], "Every import structure and every history of reloads.",
 "Each rule is tested with one example; that no path gets around a rule is a statement about all inputs.",
 [PM], [("validation loop", PM+" initDeps"), ("cycle check", PM+" checkCyclicDependency"), ("last resort", PM+" orderPlugins")])

prop("C20", "A whitelist loads exactly the plugins it names",
 "With a whitelist, a load considers only the plugins it names, in dynamic as well as in static mode, and fails without loading any if one of them cannot be found. Without one, every plugin file in the plugin directory, or every static plugin, is considered.",
 ["configurations", "inputs"], "Every whitelist and every directory content.",
 "No test uses a whitelist.",
 [SW, ST], [("filtering and completeness check", SW+" loadPluginsImpl; "+ST+" PluginManagerSwapper.loadStaticPlugins")])

prop("C21", "Static linking mode never reloads and never opens plugin files",
 "In static linking mode Reload and ReloadWithCallback always return an error and have no effect, and LoadPlugins neither reads the plugin directory nor opens any plugin file. Without static plugins the static path is never taken.",
 ["configurations"], "Every sequence of calls in either mode.",
 "One test loads statically once.",
 [SW, ST], [("mode dispatch", SW+" LoadPlugins, ReloadWithCallback")])

prop("C22", "The reload counter counts successful reloads exactly",
 "ReloadCounter() grows by exactly one for each call of Reload or ReloadWithCallback that returns no error, and is not changed by anything else. It can be read at any time from any goroutine without a data race, also on 32-bit platforms.",
 ["fault_sequences", "schedules"], "Every outcome of every call, every concurrent reader.",
 "No test reads the counter.",
 [SW], [("atomic increment on success", SW+" ReloadWithCallback"), ("atomic read", SW+" ReloadCounter")],
 [("reloadCounter", "number of successful reloads", SW)], ["PluginManagerSwapper.ReloadCounter"])

prop("C23", "Lookup is total and type-safe",
 "Plugin.Lookup assigns to its output only a symbol, or the variable a symbol points to, whose type is assignable to the output's type, and reports every other case as an error without touching the output. It does not panic, whatever the arguments and the kind of plugin.",
 ["inputs"], "Every symbol, every output value, dynamic and static plugins.",
 "A test tries a few combinations on one dynamic plugin.",
 [PL], [("checks before each reflective operation", PL+" Lookup")])

prop("C24", "Every generation starts with a vault of its own",
 "Each load creates new, empty live function, live type and data bag maps, and calls the extension constructor, if there is one, exactly once to create the extension of that generation. No map or extension is carried over from, or shared with, another generation.",
 ["histories"], "Every history of loads.",
 "Tests never compare the vaults of two generations.",
 [PM], [("construction of the vault", PM+" newPluginManager")], None, ["PluginManager.Vault"])

prop("C25", "The result of a load states truthfully what happened to each plugin",
 "A load that succeeds returns one entry per plugin of the new generation, stating whether it was loaded, carried over as unchanged or carried over as not reloadable; a load that fails returns no entries. The statement agrees with whether the plugin was opened by that very load.",
 ["inputs", "fault_sequences"], "Every mixture of plugins.",
 "A test checks one mixture.",
 [SW, PM, ST], [("notes", PM+" loadPlugins, addUnchanged"), ("details", SW+" loadPluginFiles; "+ST+" PluginManagerSwapper.loadStaticPlugins")], None, ["Details"])

prop("C26", "A swapper may be used from several goroutines",
 "All methods of a swapper may be called concurrently: every piece of swapper state is fixed by the constructor, accessed atomically only, or accessed under one lock only.",
 ["schedules"], "Every interleaving of calls of the exported methods.",
 "Tests call the methods from one goroutine.",
 [SW, ST], [("atomic fields", SW+" current, reloadCounter, opts.pluginDir"), ("mutex", SW+" mu"), ("options applied in the constructor only", SW+" NewPluginManagerSwapper")])

prop("C27", "Using plugins is never blocked by a reload",
 "Current, ReloadCounter, StaticLinkingMode and the methods of a manager (FindPlugin, Plugins, InvokeEach, InvokeEachBackward) never wait for a load or reload in progress: they acquire no lock and perform no blocking operation of their own. A load never sleeps or waits for the free delay while it holds off other loads.",
 ["schedules"], "Every reader running during every load.",
 "No test reads during a load.",
 [SW, PM], [("lock-free publication", SW+" Current"), ("delayed release in a goroutine", SW+" loadPluginFiles")])

prop("C28", "Plugins and callbacks receive what is meant for them",
 "OnLoad of every new plugin receives the very data that was given to LoadPlugins, Reload or ReloadWithCallback. OnInit receives the vault of the generation being loaded. Every reload callback receives the manager which has just been loaded and, when plugins are loaded dynamically, the manager which was current before, or nil if there was none.",
 ["inputs", "histories"], "Every set of plugins, every sequence of loads, every data value.",
 "Tests pass one data value and look at one callback.",
 [SW, PM], [("data", PM+" invokeEveryOnLoad"), ("vault", PM+" invokeEveryOnInit"), ("callbacks", SW+" reloadImpl")])

prop("C29", "Every option takes effect; plugins come from the directory set last",
 "NewPluginManagerSwapper applies every option it is given, in the order given and after its own defaults, to the swapper it returns. Each option stores its argument, unaltered, in that swapper and changes nothing else. Every load looks for plugins in the directory given to the last call of ResetPluginDir, or to the constructor if there was none.",
 ["inputs", "histories"], "Every list of options and arguments, every sequence of ResetPluginDir and loads.",
 "Tests use a few options, one value each, and one directory per swapper.",
 [SW], [("options", SW+" WithLogger, WithFreeDelay, WithReloadCallback, WithExtensionNewer, WithStaticPlugins, WithWhitelist"), ("constructor", SW+" NewPluginManagerSwapper"), ("directory", SW+" ResetPluginDir, loadPluginsImpl")])

prop("C30", "A build removes its temporary directory whichever way it ends",
 "Unless told to keep it, the build command removes the temporary directory it created before it exits, whether the build succeeds, fails at any step or is interrupted by SIGINT or SIGTERM. Nothing is created in the temporary directory after its final removal.",
 ["fault_sequences", "schedules"], "Every failing step and every moment of an interruption.",
 "Tests build successfully only.",
 [BU], [("deferred removal", BU+" execute, removeTmpDir"), ("signal handler", BU+" execute")])

prop("C31", "The command-line tool never deletes or overwrites plugin sources",
 "The build command deletes nothing but the temporary directory it created and files or directories with the names it reserves for generated code, and writes only to the temporary directory, to generated files with reserved names and to the output. In static mode, where no temporary copy exists, the directory of the plugin itself is never deleted.",
 ["configurations", "inputs"], "Every combination of flags and every layout of the plugin.",
 "Tests never look at the sources after a build.",
 [BU], [("keepTemps forced in static mode", BU+" execute"), ("targets of removal and writing", BU+" removeStaticFiles, copyFiles, gen*")])

prop("C32", "Concurrent copying reports every failure and never crashes or hangs",
 "While the sources are copied by concurrent workers, a failure in any number of them makes the build fail with one of the errors. No interleaving of workers, failures and interruptions makes the build crash, hang or go on with an incomplete copy.",
 ["schedules", "fault_sequences"], "Every interleaving of the workers.",
 "Tests copy without failures; the crash of two simultaneous failures needs a particular interleaving.",
 [BU], [("error channel with room for each worker, close guarded by a once", BU+" copyFiles"), ("wait group", BU+" copyFiles")])

prop("C33", "Every build of a plugin has an identity of its own",
 "Two builds of the same plugin, however quickly one follows the other, use different temporary directories and different package paths. So one build never removes the files of another one, and a process can load the results of both.",
 ["schedules", "histories"], "Every pair of builds, also concurrent ones.",
 "The tests need a shim which keeps builds apart.",
 [BU], [("temporary name with commit and time", BU+" execute")],
 [("tmpDirName", "name of the temporary package", BU)])

prop("C34", "An interrupted build never reports success",
 "If SIGINT or SIGTERM arrives before the compiler has finished, the build command exits with a non-zero status. It does not start the compiler on a copy which is incomplete or being removed, or with live functions left out.",
 ["schedules"], "Every moment at which the signal may arrive.",
 "No test interrupts a build.",
 [BU], [("interruption flag set before the removal", BU+" execute"), ("checks of the flag", BU+" copyFiles, completePlugin, buildPlugin")])

prop("C35", "Every live function and type is registered, or the build fails",
 "Every package-level function, and every struct type declared at package level, whose name has the live prefix regardless of letter case is registered under its own name by the generated code; methods and other names are not. If two of them have the same name, or a type with the prefix is not a struct, the build fails before any code is generated.",
 ["inputs"], "Every source tree and every prefix.",
 "The trial plugins contain four live things.",
 [BU, "cli/hotswap/cmd/hotswapLive.tpl", "cli/hotswap/cmd/hotswapBureau.tpl"], [("collection", BU+" completePlugin"), ("registration", "cli/hotswap/cmd/hotswapLive.tpl")])

prop("C36", "Generating code for one plugin leaves the other plugins alone",
 "Generating or cleaning the static linking code of a plugin neither removes nor rewrites the files generated for any other plugin. The files shared by all plugins stay valid for those.",
 ["histories", "configurations"], "Every set of plugins sharing an output directory, every order of generation.",
 "The test script generates three plugins in a row but skips the test if any file is missing.",
 [BU], [("selection of the init file", BU+" removeStaticFiles"), ("names of generated files", BU+" genHotswapStaticPluginInit")])

prop("C37", "The command-line tool fails loudly",
 "If any step of the build command fails, other than the removal of its own temporary directory, the process exits with a non-zero status and no step which depends on the failed one is performed. The path of the plugin is printed only after the compiler has succeeded.",
 ["fault_sequences"], "Every operation which can fail.",
 "Tests run successful builds only.",
 [BU, HU], [("errors become panics, panics become exit status 1", BU+" execute")])

prop("C38", "Locating the module of a plugin always terminates",
 "For every directory, determining the package path of a plugin terminates: it either finds the go.mod file of the innermost enclosing module or returns an error.",
 ["inputs"], "Every directory layout.",
 "All tests run inside of a module.",
 [HU], [("walk towards the root", HU+" PackageFromDirectory")])

prop("C39", "Test files and stale generated files never influence a build",
 "Files named *_test.go are neither copied, nor searched for required functions, nor used to determine the name of a package. Generated files left behind in the source directory are not copied into a build, and only Go files and files selected by --include but not by --exclude are.",
 ["inputs", "configurations"], "Every source tree and every --include and --exclude.",
 "The trial plugins contain no test files and no generated files.",
 [BU, HU], [("selection of files", BU+" collectFiles"), ("filters", BU+" parseRequiredPluginFuncs; "+HU+" PackageFromDirectory")])

prop("C40", "A plugin lacking a required function is refused at build time",
 "Unless the check is switched off explicitly, the build command fails before compiling, or before writing the init file in static mode, if the root package does not declare every required function as a package-level function. Methods and functions of other packages do not count, and the error names all the missing functions.",
 ["inputs"], "Every root package.",
 "The check is switched off in all tests.",
 [BU], [("declaration scan", BU+" parseRequiredPluginFuncs")])

prop("C41", "The build compiles a faithful copy and announces what it made",
 "The compiler is run on the temporary copy of the plugin, in plugin mode, with every build flag given after a double dash, and writes the very file whose path the build command prints, as it does whenever it succeeds. Every file of the copy has the content of the plugin's file of the same relative path; only Go files are changed: every import path of a package of the plugin, in either kind of quotes, is replaced by that of the copy, and the package clause of the files in the top directory becomes main.",
 ["inputs"], "Every tree of sources and every command line.",
 "Tests build a few well-behaved plugins without build flags.",
 [BU, "cli/hotswap/hotswap.go"], [("copying and rewriting", BU+" copyFiles"), ("compilation", BU+" buildPlugin"), ("report", BU+" execute"), ("build flags", "cli/hotswap/hotswap.go main")])

prop("C42", "The build command does what its arguments and flags ask for",
 "The first argument is the plugin directory and the second the output directory; with any other number of arguments, and with --clean but without --staticLinking, nothing is touched. Every flag has its documented default. The compiler runs exactly if --goBuild holds and --staticLinking does not; a successful end means that the plugin was compiled, that its static code was generated, or, with --clean, that generated files were removed and nothing was generated.",
 ["inputs"], "Every command line.",
 "Tests use a handful of flag combinations.",
 [BU], [("flags", BU+" init"), ("dispatch", BU+" execute"), ("compilation", BU+" buildPlugin")])

prop("C50", "Import paths are rewritten without changing what the plugin does",
 "The copy of a plugin that is compiled differs from its source in the package path only: every import of a package of the plugin refers to the copy, and no other text of the program is altered.",
 ["inputs"], "Every Go source text.",
 "Tests build well-behaved sources.",
 [BU], [("textual replacement", BU+" copyFiles")])

prop("C51", "Different versions of a plugin are isolated from each other at run time",
 "Code, package-level variables and types of one version of a plugin are distinct from those of every other version loaded in the same process.",
 ["histories"], "Every sequence of versions.",
 "Tests compare one string of two versions.",
 [PM, BU], [("one shared object per version, with a package path of its own", BU+" execute")])

prop("C52", "A replaced generation is eventually released",
 "Every manager that was replaced is released in bounded time after the free delay.",
 ["schedules"], "Every schedule.",
 "Timing cannot be sampled exhaustively.",
 [SW], [("background release", SW+" loadPluginFiles")])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
