# One entry per property. "technique"/"note" when a check decides it, "na" when not.
ENGINE_NOTE = ("Decided over all paths of the abstract semantics (loops to a fixpoint, calls inlined, unknown values symbolic), "
               "so a discharged rule covers every input and schedule the model admits; trusts the Go type checker and SSA builder, "
               "the classification of standard-library effects, and the assumptions in the evidence file. ")
PROPS = [
 dict(id="C01", title="A failed installation with rollback enabled always rolls back",
  statement="Unless rollback is disabled, every run of the install command in which anything fails after the library was first changed restores the library before the process ends. A process end without rollback is allowed only where nothing failed, rollback was disabled, or the library was not changed.",
  over=["fault_sequences", "inputs", "configurations"],
  **{"for": "every path from the first change of the library to the end of the process, for every outcome of every fallible operation in between and every setting of the rollback, update and strict options"},
  why="Tests stage two or three failing packages and look at the directory; they cannot enumerate every call that may fail or end the process between staging and the end.",
  files=["cmd/install.go", "rollback/operations.go", "rcmd/install.go"],
  mech=[("failure collected and rollback run", "cmd/install.go rInstall"), ("staging", "rollback/operations.go PreparePackagesForUpdate")],
  technique="interprocedural typestate by abstract interpretation of SSA",
  note=ENGINE_NOTE + "Every call that can end the process is an exit of the analysis."),
 dict(id="C02", title="Rollback restores exactly the previous library",
  statement="A rollback moves the saved copy of every package that was set aside back to its place, after removing what the failed run put there, and removes every package the run newly installed. It removes nothing that was not set aside or newly installed, and an incomplete rollback is reported.",
  over=["fault_sequences", "inputs"],
  **{"for": "every set of packages in the library, every package folder on disk, and every outcome of each file operation of the rollback"},
  why="The existing tests run the rollback on one in-memory library where every operation succeeds.",
  files=["rollback/operations.go", "rollback/types.go", "rollback/operations.go"],
  mech=[("restore and removal", "rollback RollbackPackageEnvironment"), ("what is new", "rollback DiscernNewPackages")],
  technique="abstract interpretation with per-element tracking of file-system effects",
  note=ENGINE_NOTE + "File-system operations are tracked by the symbolic path they are given."),
 dict(id="C03", title="A package is never lost between set-aside and completion",
  statement="An installed package that is to be updated or overwritten is moved aside within the library, never deleted, before the new one is installed, and only once everything that can stop the run beforehand has succeeded. The copy is deleted only after the installation succeeded or the rollback restored it, and between set-aside and that point no code path ends the process on its own.",
  over=["crash_points", "fault_sequences", "inputs"],
  **{"for": "every ending of the process between setting a package aside and deleting its saved copy, and every failing file operation"},
  why="Tests never fail a file operation or end the process between the two moves.",
  files=["cmd/install.go", "rollback/operations.go", "rollback/operations.go", "rcmd/install.go"],
  mech=[("set aside", "rollback updatePackage"), ("delete copies", "rollback DeleteBackupPackageFolders"), ("install in a temporary library", "rcmd InstallThroughBinary")],
  technique="interprocedural typestate by abstract interpretation of SSA",
  note=ENGINE_NOTE + "File-system operations are tracked by the symbolic path they are given."),
 dict(id="C04", title="A package that failed to install is always reported as failed",
  statement="Installing a package reports success only if the R command ran to a successful end, or the package was found in the library. Every failure on the way, including a missing package file or working directory, reaches the result of the whole installation.",
  over=["fault_sequences", "inputs", "schedules"],
  **{"for": "every outcome of every step of every package's installation, on every worker"},
  why="The tests exercise the happy path of one install and a command double; the failing paths cross goroutines and channels.",
  files=["rcmd/install.go", "rcmd/worker.go"],
  mech=[("R CMD INSTALL", "rcmd Install"), ("two passes", "rcmd InstallThroughBinary"), ("collection", "rcmd InstallPackagePlan")],
  technique="abstract interpretation of SSA, goroutines and channels included",
  note=ENGINE_NOTE + "Goroutine bodies are explored to a fixpoint over the values sent on each channel."),
 dict(id="C05", title="Packages install after their dependencies, once, and stop after a failure",
  statement="No package's installation is requested before all packages it depends on in the plan were installed successfully. No package is installed twice in one run, and after a failure no further package is requested.",
  over=["schedules", "inputs"],
  **{"for": "every plan, every number of workers and every order in which installations finish"},
  why="Tests run the queue once with trivial package graphs; the order depends on goroutine scheduling.",
  files=["rcmd/install.go", "rcmd/worker.go"],
  mech=[("release of dependants", "rcmd InstallPackagePlan"), ("duplicate filter", "rcmd InstallPackagePlan"), ("queue", "rcmd InstallQueue.Push")],
  technique="abstract interpretation of the scheduler's goroutines at every request",
  note=ENGINE_NOTE + "Completeness of the dependency map itself is C13."),
 dict(id="C06", title="An installation always terminates, in success and in failure",
  statement="Every package requested for installation is eventually accounted for exactly once, whether it was installed, failed, was a duplicate, or was given up because something else failed. The installation waits for all of them and never waits for one that will not come.",
  over=["schedules", "fault_sequences", "inputs"],
  **{"for": "every interleaving of the scheduler, the queue and the workers, every number of workers, and every failing package"},
  why="A lost decrement shows up as a hang in rare failing schedules; tests install few packages that all succeed.",
  files=["rcmd/install.go", "rcmd/worker.go"],
  mech=[("wait group", "rcmd InstallPackagePlan"), ("worker loop", "rcmd Worker.Start")],
  technique="counting analysis over every path of the three kinds of goroutine",
  note=ENGINE_NOTE + "Channel capacities (2000, 500) are assumed not to be exceeded; R processes are assumed to end."),
 dict(id="C11", title="Each package comes from the repository and type the user asked for",
  statement="A package is taken from the first configured repository that offers it in the type that applies to it, the package's own customised type before the repository's default before the general default. A package customised to one repository is never taken from another, and it is reported missing only when no repository qualifies.",
  over=["inputs", "configurations", "schedules"],
  **{"for": "every combination of customised repository, customised type, repository default, general default and availability, and every order in which the repository databases arrive"},
  why="192 combinations of settings decide the result; the tests cover a handful, with repositories built in a fixed order.",
  files=["cran/pkg_nexus.go", "cran/repodb.go", "configlib/config.go", "configlib/get_customization.go"],
  mech=[("selection", "cran PkgNexus.GetPackage"), ("databases", "cran NewPkgDb"), ("settings", "configlib SetPlanCustomizations")],
  technique="exhaustive abstract evaluation of the selection over its finite settings",
  note=ENGINE_NOTE + "Every combination of the settings is evaluated symbolically against the documented order."),
 dict(id="C14", title="Package versions are ordered component by component",
  statement="Comparing two versions gives the order of the first of their five components that differs, whatever the separators and however many components are written. Every component of a written version is kept.",
  over=["inputs"],
  **{"for": "every pair of versions with up to five components, with absent components counting as zero"},
  why="The tests compare some thirty pairs of literals; there are 243 orderings of the components and several entry points.",
  files=["desc/version.go", "desc/structs.go"],
  mech=[("comparison", "desc CompareVersions"), ("parsing", "desc ParseVersion")],
  technique="exhaustive abstract evaluation over the orderings of the components",
  note=ENGINE_NOTE + "Every ordering of the components is evaluated symbolically."),
 dict(id="C15", title="Only packages usable with the running R are offered",
  statement="A package from a repository's list is offered exactly when the running R satisfies its constraint on R, whichever operator it uses, and it is not a special version. A package without a constraint is always usable.",
  over=["inputs", "configurations"],
  **{"for": "every operator, every ordering of the R version against the bound, and every package list"},
  why="Tests use one recorded package list with R versions far from every bound.",
  files=["cran/repodb.go", "desc/desc.go", "desc/dep.go"],
  mech=[("constraint", "cran checkRVersionCompatibility"), ("operator", "desc ParseDep")],
  technique="exhaustive abstract evaluation over operators and orderings",
  note=ENGINE_NOTE + "The text of a dependency is modelled by the operator its constraint starts with."),
 dict(id="C16", title="A package is outdated exactly when a newer version is offered",
  statement="An installed package is planned for update exactly when a repository offers a newer version of it, with the installed and the offered version recorded. Equal and older offers are never updates.",
  over=["inputs"],
  **{"for": "every set of installed packages and every set of offered ones"},
  why="Tests compare two lists of a few packages.",
  files=["pacman/utils.go"],
  mech=[("outdated packages", "pacman GetOutdatedPackages")],
  technique="exhaustive abstract evaluation over installed/offered/ordering",
  note=ENGINE_NOTE + "Version ordering itself is C14."),
 dict(id="C17", title="A file in a cache is never a partial one",
  statement="A package file, a package database, a built binary or an extracted tarball appears under its name in a cache only after all of it was written without error. A run that fails or is killed midway leaves nothing that a later run takes for a complete file.",
  over=["faults", "crash points", "histories"],
  **{"for": "every outcome of every file operation, and a stop of the process at any point"},
  why="Tests never fail a write, a close or a rename, and never stop in between.",
  files=["cran/download-package.go", "cran/repodb.go", "rcmd/install.go", "internal/archive/extract.go", "cmd/tarballOps.go"],
  mech=[("downloads", "cran DownloadPackage"), ("package databases", "cran RepoDb.Encode"), ("built binaries", "rcmd InstallPackagePlan"), ("tarballs", "cmd unpackTarballs")],
  technique="typestate of written files over every outcome of every file operation",
  note=ENGINE_NOTE + "Files are tracked by the symbolic path they are given; rename is taken to be atomic."),
 dict(id="C18", title="Cached files whose content may differ have different names",
  statement="The name of a cached package list depends on the repository's address, name and suffix, the source types and the full R version. The name of a cached package depends on its repository, type, name and version, and for binaries on the R version. A built binary is looked for under the name it was stored.",
  over=["inputs", "configurations", "histories"],
  **{"for": "every pair of repositories, packages, types and R versions that share a cache"},
  why="Tests use one repository and one R version; collisions need two runs with different settings.",
  files=["cran/repodb.go", "cran/utils.go", "cran/download-package.go", "rcmd/install.go", "rcmd/helpers.go"],
  mech=[("package list", "cran RepoDb.GetRepoDbCacheFilePath"), ("folder", "cran RepoURLHash"), ("package file", "cran DownloadPackages"), ("binary", "rcmd InstallThroughBinary")],
  technique="symbolic normal forms of path names, compared under variation of each input",
  note=ENGINE_NOTE + "A hash of which at least 40 bits are kept stands for the text hashed; letter case counts."),
 dict(id="C21", title="TLS certificates are verified unless the user opts out",
  statement="Every request is made with a client that verifies the server's certificate unless NoSecure is set. With NoSecure set, package lists and packages are requested without that verification.",
  over=["inputs", "configurations"],
  **{"for": "every request of package lists and packages, with the option on and off"},
  why="Tests make requests to servers with valid certificates only, so nothing shows whether verification is on.",
  files=["cran/download-package.go", "cran/repodb.go", "cmd/plan.go", "cmd/install.go"],
  mech=[("package lists", "cran RepoDb.FetchPackages"), ("packages", "cran DownloadPackage")],
  technique="abstract interpretation of client configuration at each request; def-use of the option",
  note=ENGINE_NOTE + "The binding of the flag and the setting to the configuration is C25."),
 dict(id="C31", title="Package lists that could not be read are never taken for empty ones",
  statement="A package list that could not be requested, was refused or could not be parsed is passed on as failed. A repository none of whose lists could be read is a failure, is not cached and ends the planning.",
  over=["faults", "schedules"],
  **{"for": "every server response, every failing step, every number of lists and every order in which they arrive"},
  why="Tests fetch from repositories that answer.",
  files=["cran/repodb.go", "cran/pkg_nexus.go", "cmd/plan.go"],
  mech=[("lists", "cran RepoDb.FetchPackages"), ("databases", "cran NewPkgDb"), ("planning", "cmd planInstall")],
  technique="abstract interpretation of SSA, goroutines and channels included",
  note=ENGINE_NOTE + "One and two lists per repository are evaluated; server responses by status code."),
 dict(id="C35", title="Only a package that was really downloaded is installed as one",
  statement="A bad server response or a failed read or write is a failed download, and leaves no file and no entry for the package. A package without a downloaded file is never installed from something else.",
  over=["faults"],
  **{"for": "every class of server response and every failing operation of a download"},
  why="Tests download from servers that answer, so failure paths are never taken.",
  files=["cran/download-package.go", "cran/sync.go", "rcmd/install.go"],
  mech=[("download", "cran DownloadPackage"), ("collection", "cran DownloadPackages"), ("install", "rcmd InstallThroughBinary")],
  technique="abstract interpretation of SSA over fault outcomes of every operation",
  note=ENGINE_NOTE + "Server responses are evaluated by status code."),
 dict(id="C36", title="Package lists and packages are requested from the same, right place",
  statement="Package lists are read from src/contrib or bin/<platform>[/<suffix>]/contrib/<R version> under the repository's address, whether or not it ends in a slash. A package is requested from the folder whose list named it.",
  over=["inputs", "configurations"],
  **{"for": "every type, suffix and form of the repository's address, and every Linux distribution and release"},
  why="Tests use source packages of two repositories on one distribution.",
  files=["cran/repodb.go", "cran/download-package.go", "cran/utils.go"],
  mech=[("package list", "cran GetPackagesFileURL"), ("package", "cran DownloadPackage"), ("platform", "cran cranBinaryURL")],
  technique="symbolic normal forms of addresses, compared with the layout of a repository",
  note=ENGINE_NOTE + "Evaluated for the Linux build."),
 dict(id="C37", title="A cached package list is used only while it is fresh",
  statement="A cached package list is used exactly while it is younger than the age allowed: one hour, or the value of R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE when that is a number. Otherwise the lists are requested and cached anew.",
  over=["inputs", "histories"],
  **{"for": "every age of the cached list and value of the variable"},
  why="Tests run in seconds with a fresh cache; expiry is never reached.",
  files=["cran/repodb.go"],
  mech=[("cache", "cran RepoDb.FetchPackages")],
  technique="abstract evaluation of the freshness condition over ages and settings",
  note=ENGINE_NOTE + "Ages are evaluated on both sides of each limit; the exact limit is left open."),
 dict(id="C32", title="No metadata a user or repository supplies crashes the program",
  statement="Whatever a DESCRIPTION file, package list, R or the configuration contains, reading it neither panics nor ends the process: text and lists are taken apart at a constant position only where they are known to be that long. A dependency is kept under its name whatever its version constraint looks like.",
  over=["inputs"],
  **{"for": "every content of package metadata, of R's output and of the configuration"},
  why="Tests parse well-formed metadata.",
  files=["desc/dep.go", "desc/version.go", "desc/desc.go", "rcmd/Rsettings.go", "gpsr/solution.go", "cmd/plan.go"],
  mech=[("dependencies", "desc ParseDep"), ("versions", "desc ParseVersion"), ("R version", "rcmd parseVersionData"), ("layers", "gpsr ResolveInstallationReqs")],
  technique="abstract interpretation of SSA with facts on lengths, dominating conditions, call-graph rule",
  note=ENGINE_NOTE + "Only constant indexes and bounds are covered; the control-file decoder of pault.ag/go/debian is assumed not to panic. That a graph with a package has a layer is part of C13."),
 dict(id="C09", title="plan, inspect, load and debug change nothing but caches and logs",
  statement="Looking at what would be installed, or at what is, changes neither the library nor the configuration nor any other file of the user: files are only created, changed or removed in the caches, in the temporary directory and in the log. Nothing is started that installs or removes packages.",
  over=["inputs", "configurations", "faults"],
  **{"for": "every configuration, library and failing operation"},
  why="Tests look at the output of these commands, on libraries that already exist.",
  files=["cmd/plan.go", "cmd/inspect.go", "cmd/load.go", "cmd/debug.go"],
  mech=[("plan", "cmd planInstall"), ("inspect", "cmd inspect"), ("load", "cmd load")],
  technique="abstract interpretation of SSA, provenance of every path that is changed",
  note=ENGINE_NOTE + "What R does while it loads a package is not analysed. The extraction of tarballs is confined by os.Root (C20)."),
 dict(id="C19", title="Cleaning removes exactly the cached files it was asked to remove",
  statement="Cleaning removes only source or binary files of repositories in the cache, extracted tarballs and cached package databases: those the options select, of the repositories that were named or else of each. They are the ones installations use, and contradictory options remove nothing and fail.",
  over=["inputs", "configurations"],
  **{"for": "every combination of options, with and without a configured cache, and every content of the cache"},
  why="Tests clean one prepared cache with a few combinations of options.",
  files=["cmd/cleanCache.go", "cmd/cleanPkgdb.go", "cmd/clean.go"],
  mech=[("cache", "cmd cleanCacheFolders"), ("databases", "cmd removePackageDatabases")],
  technique="abstract interpretation of SSA for every combination of options",
  note=ENGINE_NOTE + "Where the user cache cannot be determined is not evaluated."),
 dict(id="C20", title="Extracting an archive never touches anything outside its own folder",
  statement="Whatever names and kinds of entries an archive has, everything created for them lies in the folder it is extracted to; links and other special entries fail the extraction. Only that folder, of this run alone and in the cache, is cleared beforehand.",
  over=["inputs"],
  **{"for": "every entry name and every file mode of every archive, and every outcome of each operation of the extraction"},
  why="A test extracts a few crafted archives; the guarantee is about every name and combination of entries an archive can hold.",
  files=["internal/archive/extract.go", "cmd/tarballOps.go"],
  mech=[("local names and a rooted handle", "internal/archive/extract.go extractFile"), ("folder in the cache", "cmd/tarballOps.go untar")],
  technique="path provenance by abstract interpretation of SSA",
  note=ENGINE_NOTE + "os.Root and filepath.IsLocal are trusted to do what they document."),
 dict(id="C13", title="The plan is the complete, ordered closure of what was requested",
  statement="The plan holds every requested package and everything it requires, directly or not, and nothing else. Each planned package that requires others has a dependency list of all of them, without itself, so that it is installed after them. Tarballs and DESCRIPTION files request their Depends, Imports and LinkingTo (DESCRIPTION files also their Suggests).",
  over=["inputs"], **{"for": "every dependency graph, package setting and candidate"},
  why="A test resolves one or two small graphs; the closure has to be complete and ordered for every graph and combination of settings.",
  files=["gpsr/helpers.go", "gpsr/dependencies.go", "gpsr/solution.go", "desc/structs.go", "cmd/plan.go"],
  mech=[("graph", "gpsr appendToGraph"), ("layers", "gpsr ResolveLayers"), ("dependency lists", "gpsr ResolveInstallationReqs"), ("downloads", "gpsr InstallPlan.Pack"), ("tarball and DESCRIPTION dependencies", "cmd planInstall, desc GetCombinedDependencies")],
  technique="abstract interpretation of SSA over a finite scenario space",
  note=ENGINE_NOTE + "The engine follows one candidate per field through each combination of settings; graphs of any size are covered because each loop body is decided for an arbitrary element."),
 dict(id="C10", title="An unusable plan is never installed",
  statement="Every requested package is either planned or reported missing; with a package missing, or package lists, a named tarball or DESCRIPTION file, or the graph that could not be had, the program ends with an error (or goes on without a plan where the command allows it) before the library is touched. A customisation of a repository that is not configured, or with no type, ends the program. In strict mode a library that does not exist is neither created nor installed to.",
  over=["inputs", "configurations"], **{"for": "every request, repository content and failing input"},
  why="Tests plan what can be planned; that no failure leaves a shorter plan which is then installed has to hold for every missing package and every input that fails.",
  files=["cmd/plan.go", "cmd/install.go", "cran/pkg_nexus.go", "cran/repodb.go", "configlib/config.go", "gpsr/solution.go"],
  mech=[("planning", "cmd planInstall"), ("selection of the packages", "cran GetPackages"), ("strict mode", "cmd rInstall"), ("customisations of repositories", "configlib")],
  technique="abstract interpretation of SSA with a rule for every way planning can end",
  note=ENGINE_NOTE + "Each source of failure is followed to the ways the process can end from it."),
 dict(id="C12", title="Excluded and base packages are never downloaded or installed",
  statement="A package the configuration ignores is taken out of the source and binary lists of every repository before anything is selected. Packages that come with R are never selected or planned, and everything else that was requested is. The setting for recommended packages decides for the graph, its layers and packages with settings of their own alike.",
  over=["inputs", "configurations"], **{"for": "every list of ignored packages, every repository content and dependency graph"},
  why="Tests exclude one package from one repository; the exclusion has to hold on every way a package can come into the plan.",
  files=["cmd/plan.go", "cran/pkg_nexus.go", "cran/repodb.go", "gpsr/helpers.go", "gpsr/dependencies.go", "configlib/config.go"],
  mech=[("ignored packages", "cmd planInstall"), ("base packages", "cmd removeBasePackages"), ("recommended packages", "gpsr dependency settings")],
  technique="abstract interpretation of SSA over a finite scenario space",
  note=ENGINE_NOTE + "Loops over repositories, lists and packages are decided for an arbitrary element."),
 dict(id="C22", title="R sees exactly the configured libraries and no others",
  statement="R_LIBS, R_LIBS_USER and R_LIBS_SITE of the caller are never passed to an R process that is started for the user's packages; R_LIBS_USER is a new empty folder and R_LIBS_SITE the configured library paths. Every such process gets that environment, made for its settings and its package, and is started without profiles. Packages are installed to the library of the installation and every option that is set, and no other, is passed.",
  over=["inputs", "configurations"], **{"for": "every inherited environment, settings and place that starts R"},
  why="Tests look at one environment and one command line; any inherited variable and any of the places that start R could break the isolation.",
  files=["rcmd/configure.go", "rcmd/nvp.go", "rcmd/RunR.go", "rcmd/install.go", "rcmd/Rsettings.go", "cmd/run.go"],
  mech=[("environment", "rcmd configureEnv"), ("processes", "rcmd StartR, RunR, RunRBatch, Install"), ("options", "rcmd CliArgs")],
  technique="abstract interpretation of SSA with texts evaluated for every inherited variable, over every process start",
  note=ENGINE_NOTE + "The environment code is followed once per inherited variable and combination of settings; the start sites are found in the call graph, each must be followed."),
 dict(id="C23", title="Secrets of the environment do not reach R or the logs",
  statement="The value of an inherited variable that is known to hold a secret, in whatever case its name is written, does not appear in the environment given to R, which is also logged. The caller's environment is not logged in any other way.",
  over=["inputs", "configurations"], **{"for": "every inherited secret and combination of settings"},
  why="A test checks one variable in one spelling; a leak needs only one variable, one spelling or one log line.",
  files=["rcmd/configure.go", "rcmd/RunR.go", "rcmd/install.go"],
  mech=[("masking", "rcmd configureEnv, censoredEnvVars"), ("uses of the environment", "callers of os.Environ")],
  technique="abstract interpretation of SSA with a secret value, and a data-flow rule from the environment to log calls",
  note=ENGINE_NOTE + "Every log call the value of a secret may reach is examined."),
 dict(id="C24", title="Each package is built with the variables configured for it",
  statement="The variables of a package's customisation are set, with the names and values given, in the R process that builds that package, and win over inherited ones of the same name. Every other inherited variable with a value is passed on unchanged, with the folder of the chosen R first in PATH. Every installation runs with the settings of the run and under the name of its own package.",
  over=["inputs", "configurations", "schedules"], **{"for": "every inherited variable, customisation and installation"},
  why="Tests pass one variable for one package; the right variables have to reach the right process for every package and every way of installing.",
  files=["rcmd/configure.go", "rcmd/install.go", "configlib/config.go", "configlib/get_customization.go", "cmd/install.go", "cmd/run.go"],
  mech=[("environment", "rcmd configureEnv"), ("customisations", "configlib SetCustomizations, GetPackageCustomizationByName"), ("installations", "rcmd InstallPackagePlan, InstallThroughBinary, cmd rInstall, rRun")],
  technique="abstract interpretation of SSA with texts evaluated for every inherited variable",
  note=ENGINE_NOTE + "The settings are followed from the configuration to the start of the process."),
 dict(id="C38", title="Customisations apply to what they name and to nothing else",
  statement="With Suggests set, exactly the listed packages have their suggested packages installed. Each setting the customisation of a package has is applied to that package with the value given, and one it does not have is not. Every configured repository is used, in order, with its name, address, suffix and type.",
  over=["inputs", "configurations"], **{"for": "every configuration"},
  why="Tests load a few configuration files; each combination of setting, package and repository is one more case.",
  files=["configlib/config.go", "configlib/get_customization.go", "cmd/plan.go", "cran/repodb.go"],
  mech=[("package settings", "configlib SetPlanCustomizations"), ("presence of a setting", "configlib IsCustomizationSet"), ("repositories", "cmd planInstall"), ("repositories as read", "configlib NewConfig")],
  technique="abstract interpretation of SSA over a finite scenario space",
  note=ENGINE_NOTE + "Loops over packages and repositories are decided for an arbitrary element."),
 dict(id="C07", title="The library only receives what was built successfully elsewhere",
  statement="A package is first built in a new temporary folder outside the library; the library receives only the binary that came out of a successful build, or a cached one. When the build fails or leaves no binary, nothing is installed and the failure is reported; what is reported is the outcome of the installation to the library.",
  over=["inputs", "fault_sequences", "configurations"], **{"for": "every package file and library path, relative or absolute, whatever exists on disk, and every outcome of each step"},
  why="Tests use a stand-in for R that succeeds; what happens between the two steps depends on which step fails, what is left behind, and where R runs.",
  files=["rcmd/install.go"],
  mech=[("two-step installation", "rcmd InstallThroughBinary"), ("binary left by the build", "rcmd InstallThroughBinary"), ("library argument", "rcmd Install")],
  technique="abstract interpretation of SSA with paths evaluated as texts",
  note=ENGINE_NOTE + "The paths are followed for representative texts of each kind (absolute and relative library and package file, with and without a working directory)."),
 dict(id="C08", title="Installed packages are left alone unless an update was asked for",
  statement="A package whose folder is in the library is neither built, installed nor changed, and this is no failure. Without updates no outdated package is moved aside; with updates exactly the outdated packages of the plan are, and of the packages given as tarballs exactly those that are installed.",
  over=["inputs", "configurations"], **{"for": "every set of installed, outdated, planned and given packages, and every setting of the update option"},
  why="A second run over the same library has to change nothing whatever is in the library; tests try one library.",
  files=["rcmd/install.go", "rollback/operations.go", "cmd/install.go"],
  mech=[("installed already", "rcmd InstallThroughBinary"), ("what is moved aside", "rollback PreparePackagesForUpdate, PrepareAdditionalPackagesForOverwrite"), ("when", "cmd/install.go rInstall")],
  technique="abstract interpretation of SSA over a finite scenario space",
  note=ENGINE_NOTE + "The sets are tracked by an arbitrary element of each."),
 dict(id="C39", title="What an interrupted run left in the library does not hinder the next one",
  statement="A package is updated although a saved copy of it is left over from an interrupted run, and that copy is only removed while the package itself is there. A saved copy in the library is never taken for an installed package, which every other folder with a DESCRIPTION is.",
  over=["crash_points", "histories"], **{"for": "every combination of a package and a saved copy of it being in the library when a run starts"},
  why="Tests start from a clean library; nothing runs pkgr over what a killed run left behind.",
  files=["rollback/operations.go", "rollback/types.go", "pacman/utils.go"],
  mech=[("set aside", "rollback tagOldInstallation"), ("scan of the library", "pacman GetPriorInstalledPackages")],
  technique="abstract interpretation of SSA over a finite scenario space with paths evaluated as texts",
  note=ENGINE_NOTE + "What is in the library is one of four combinations; file operations succeed or fail."),
 dict(id="C30", title="Goroutines that run at the same time do not race",
  statement="Whatever the schedule, memory that several goroutines can reach is written by one of them only under a lock the others share, atomically, or in an order that a wait group, a sync.Once or a channel gives. This holds for fetching package databases, downloading, installing and load; every download has been recorded before the downloads are handed on.",
  over=["schedules"], **{"for": "every interleaving of the goroutines pkgr starts"},
  why="A data race shows in rare interleavings only, and the tests do not run under the race detector with many packages.",
  files=["rcmd/install.go", "rcmd/worker.go", "cran/sync.go", "cran/download-package.go", "cran/pkg_nexus.go", "cran/repodb.go", "cran/utils.go", "cmd/load.go"],
  mech=[("shared download map", "cran PkgMap"), ("parallel downloads", "cran DownloadPackages"), ("updater and scheduler", "rcmd InstallPackagePlan"), ("parallel package databases", "cran NewPkgDb, FetchPackages"), ("operating system release", "cran ReadOsRelease"), ("parallel loads", "cmd load")],
  technique="interprocedural lockset and happens-before analysis by abstract interpretation of SSA",
  note=ENGINE_NOTE + "Values that a sender hands over through a channel are taken to be the receiver's from then on; libraries documented as safe for concurrent use are trusted."),
 dict(id="C26", title="Adding and removing packages edits only the Packages list",
  statement="`pkgr remove` takes out exactly the lines of the Packages section that name the given packages and keeps every other line as it was; `pkgr add` adds one line for every given package the section does not list yet and keeps every line of the file. A file that cannot be read completely is left untouched, and a failure to read or write it ends the command with an error.",
  over=["inputs", "faults"], **{"for": "every listed layout of the configuration and packages named, and every outcome of reading and writing the file"},
  why="Tests edit one well-formed file; names that are prefixes of others, other sections naming the package, lines too long to read and failing reads are not among them.",
  files=["configlib/config.go", "configlib/add_package.go", "cmd/add.go", "cmd/remove.go"],
  mech=[("remove", "configlib RemovePackage, cmd rRemove"), ("add", "configlib AddPackage, cmd rAdd")],
  technique="Abstract interpretation of the commands that edit the configuration over a set of layouts of its text and outcomes of reading and writing it: what is written is compared, line by line, with what was there.",
  note=ENGINE_NOTE + "The layouts of the configuration are a finite list; YAML forms other than a block list of the Packages section (flow lists, anchors) are not among them."),
 dict(id="C27", title="Everything that was planned is installed",
  statement="An installation downloads exactly the packages of the plan it just made and runs that plan with what was downloaded; every tarball of the plan is installed from where it was unpacked, whether or not anything else failed. A package is requested with its own download and the settings of the run, and a package that waits for others is found under every one of them once they are installed, so none is left out without a failure.",
  over=["inputs", "faults", "histories"], **{"for": "every plan, and every outcome of the downloads and installations"},
  why="Tests install small plans in which each package waits for one other, and one tarball at most.",
  files=["cmd/install.go", "rcmd/install.go", "gpsr/dependencies.go"],
  mech=[("command", "cmd rInstall, installAdditionalPackages"), ("requests", "rcmd InstallPackagePlan"), ("inverse dependencies", "gpsr (*InstallPlan).InvertDependencies")],
  technique="Abstract interpretation of the install command and of the installation plan: what is passed on from the planning to the downloads, the installations and the listed tarballs, for every element of every list gone through.",
  note=ENGINE_NOTE + "That R installs what it is told to is assumed; that the plan is the complete closure is C13."),
 dict(id="N01", title="Two installs of the same configuration give the same library",
  statement="Running the install command twice with the same configuration, repositories and R version yields libraries with the same packages and versions.",
  over=["histories"], **{"for": "every pair of runs"},
  why="Tests compare nothing across runs.",
  files=["cmd/install.go"], mech=[("plan", "cmd planInstall")],
  na="Relates two executions over the contents of remote repositories and of R's own build; no static argument over pkgr's source can bound what R and the servers return. The parts that are pkgr's own (selection order, exclusion, caching) are C11-C18."),
 dict(id="N02", title="A package that R reports as installed can be loaded",
  statement="Every package that is reported as installed can be loaded by R in the resulting library.",
  over=["programs", "inputs"], **{"for": "every package"},
  why="Depends on R.",
  files=["rcmd/install.go", "cmd/load.go"], mech=[("load test", "cmd load")],
  na="Whether a package loads is decided by R and the package's code at run time; nothing in pkgr's source determines it."),
 dict(id="N03", title="Downloads and installs make progress in bounded time",
  statement="No download or R process keeps a run waiting indefinitely.",
  over=["schedules", "inputs"], **{"for": "every server and every R process"},
  why="Tests have no slow servers.",
  files=["cran/download-package.go", "rcmd/install.go"], mech=[("http get", "cran DownloadPackage")],
  na="Quantifies over elapsed time of remote servers and child processes; there are no deadlines in the code whose presence would decide it, and adding them would be a behaviour change."),
 dict(id="N04", title="Editing the configuration keeps everything else the user wrote",
  statement="After adding or removing packages, the configuration parses to the same values apart from the package list, for every YAML layout.",
  over=["inputs"], **{"for": "every YAML document"},
  why="Tests edit three small files.",
  files=["configlib/config.go"], mech=[("line edit", "configlib Add and remove")],
  na="The edit works on text lines, so agreement with the YAML meaning quantifies over all layouts YAML admits (flow lists, quoting, anchors); a static argument over the line scanner cannot reach the YAML grammar. The line-level guarantees are C26."),
]
