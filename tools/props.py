import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over.split(),"text":text},"why_tests_cant":why,
      "anchors":{"files":files.split(),
        "state":[dict(zip(("name","meaning","where"),s)) for s in state],
        "mechanism":[dict(zip(("name","where"),m)) for m in mechanism],
        "observe_at":list(observe),"hook_needed":hook}})
ENV="ipkg/environments.py"
rec=("environment record","names, versions, files of installed packages and configuration","PREFIX/.ipkg.meta")
p("C01","The record of an environment survives interruptions",
"Whatever happens to a command which changes an environment (it is killed at any point, the machine loses power, the disk fails or is full), the environment can still be opened afterwards and its record is exactly the one before or the one after some step of that command. Packages and configuration values which the command was not about are still recorded, unchanged, with all their meta data. A recorded package is one which was really asked for, with its exact meta data. A record which something else damaged is refused, not taken for an empty one.",
"crash_points fault_sequences histories","every history of installs, upgrades, uninstalls and config changes, every crash point, power loss or disk error in it",
"Tests write the record once on a healthy disk; nothing interrupts a save or reopens the environment after a crash.",
"ipkg/utils.py ipkg/files/atomic.py ipkg/environments.py",
[("DictFile.save","ipkg/utils.py"),("write_file: temporary, fsync, rename","ipkg/files/atomic.py"),("Environment.install/uninstall/set_config","ipkg/environments.py")],
[rec],["a new process which lists packages and configuration after every operation"])
p("C02","A listed package is complete",
"After any command, successful, failed or interrupted, every package an environment lists has all its files, links and permissions in place with the content of its archive (build prefix replaced by the absolute prefix of the environment where it has to be, however that was written on the command line), except one whose removal had already begun. Files of packages which are not listed are not there, except those left by an interrupted command about that package, and these do not prevent installing it again.",
"crash_points fault_sequences histories inputs","every history, package content and interruption point",
"Tests install one tiny package without faults; they never see a command stop between extraction, rewriting and recording.",
"ipkg/environments.py ipkg/packages.py ipkg/prefix_rewriters.py",
[("Environment.install: extract, rewrite, then record","ipkg/environments.py"),("PackageFile.extract","ipkg/packages.py"),("rewrite_prefix","ipkg/prefix_rewriters.py")],
[rec],["the tree of the environment compared with a reference installation"])
p("C03","What is acknowledged is done, what failed is reported, retrying works",
"A command on an environment which succeeds has completely done what it was asked, and one which cannot do it fails; it never fails when nothing went wrong and what it needs exists. Once faults stop, doing it again succeeds and ends in the same state as if nothing had happened. This also holds within one program which goes on using its environment object after an error: what it believes is what is on disk.",
"fault_sequences histories crash_points","every history, every disk, network or child program error, in one or several processes",
"Tests do not inject errors and never look at what an environment object believes after a failed save.",
"ipkg/environments.py ipkg/utils.py ipkg/cli.py",
[("rollback of the record in memory when saving fails","ipkg/environments.py"),("exit status","ipkg/cli.py")],
[rec],["outcome of each command, then a new process","the packages an environment object lists after a failure"])
p("C04","Uninstalling removes exactly the package",
"Uninstalling a package removes all its files and links and the directories in which only these were, and nothing of other packages nor of the user. It can be interrupted anywhere: doing it again finishes the removal.",
"histories crash_points fault_sequences inputs","every set of packages and user files sharing directories, every interruption",
"One test uninstalls one package of a few files without faults.",
"ipkg/environments.py",[("Environment.uninstall","ipkg/environments.py")],[rec],
["tree of the environment before and after"])
p("C05","Replacing a version leaves exactly the new one",
"Installing another version or revision of an installed package, newer or older, leaves that version alone: its files, its record, and nothing of the previous one. If it is interrupted, the environment has the old version, none, or the new version, never both, and doing it again ends with the new one.",
"histories crash_points fault_sequences inputs","every pair of versions sharing some files, every interruption",
"Tests mock this; none replaces a version on a disk, with faults or not.",
"ipkg/environments.py",[("Environment.install: uninstalls the other version first","ipkg/environments.py")],[rec],
["tree and record of the environment"])
p("C06","Dependencies are installed first, or the install fails",
"When a package is recorded as installed by a command, all its dependencies have been installed and satisfy what it requires, recursively, and the best package of the repository was chosen for each. If a dependency cannot be found, downloaded or installed the command fails and does not install what needs it, and keeps complete whatever it recorded.",
"inputs fault_sequences crash_points histories","every acyclic dependency graph, set of versions and repository content, with faults at any point of the recursion",
"Tests use a graph of two packages on a healthy disk.",
"ipkg/environments.py ipkg/repositories.py ipkg/requirements.py ipkg/versions.py",
[("recursion of Environment.install","ipkg/environments.py"),("BaseRepository.find/__getitem__","ipkg/repositories.py")],[rec],
["record after every operation"])
p("C07","A remote file is read whole or the read fails",
"Whatever the network or the server does (refused or dropped connections, error pages, redirections, truncated or stalled bodies, any chunking), reading a remote file ends, and gives exactly its content or an ipkg error which makes the command fail. Partial reads, seeks, checksum verification and repeated opens, also after a failure, behave as on a local file. A body which ends early is noticed whenever its length was announced (Content-Length or chunks).",
"fault_sequences inputs schedules","every response, framing, fragmentation and network failure, every sequence of reads and seeks",
"Tests use one mocked response without failures.",
"ipkg/files/backends/http.py ipkg/files/backends/__init__.py ipkg/cli.py",
[("HttpFile.__download","ipkg/files/backends/http.py")],[],["bytes returned by vopen().read() against the served ones","exit status of commands"])
p("C08","The download cache never changes what is read",
"With a cache directory, a file which was downloaded is read from the cache from then on, with exactly the bytes the server sent, whatever happened while the cache was written (crash, power loss, full disk, errors, other processes downloading the same file). A cache which cannot be opened, written or does not exist never makes a download fail, and what failed or does not match its checksum is not in the cache afterwards: once the server is right, the file can be read.",
"crash_points fault_sequences schedules histories","every interruption of a cache write, every interleaving of processes sharing the cache",
"Tests check a cache hit and a miss without faults nor concurrency.",
"ipkg/files/cache.py ipkg/files/backends/http.py ipkg/files/atomic.py",
[("cache.set/get/has","ipkg/files/cache.py")],[("cache entry","content of a URL","IPKG_CACHE_DIR/sha256(url)")],["bytes read and requests made by later processes"])
p("C09","Content which does not match its checksum is never used",
"Sources, patches and packages for which a checksum is known are used only if their content matches it, whatever the storage, the cache, a mirror or the network changed in them. Otherwise the command fails before anything of them is unpacked, installed, run or packaged, and correct content is always accepted.",
"fault_sequences inputs","every corruption of a file between its publication and its use, for every checksum algorithm",
"Tests compare one good and one bad hash of one local file.",
"ipkg/files/backends/__init__.py ipkg/build.py ipkg/packages.py ipkg/repositories.py",
[("BaseFile.verify_checksum","ipkg/files/backends/__init__.py"),("File.open","ipkg/build.py"),("PackageFile._tarfile","ipkg/packages.py")],[],
["environment trees and packages after commands met corrupted files"])
p("C10","A package holds exactly what the build installed",
"A package which a build leaves at its final name is complete: it contains exactly the files and links the build added to its environment, with their content and permissions, and meta data which says so; installing it elsewhere gives these files back. If the build fails or is interrupted there is nothing, the previous package unchanged, or the complete new one at that name.",
"crash_points fault_sequences inputs","every set of files a build may create, every failure or crash point of the build",
"Tests build one formula with one file and no failure.",
"ipkg/build.py",
[("Formula.__build_package/__create_package, find_files","ipkg/build.py")],[("package","archive of files and meta data","PACKAGE_DIR/NAME-VERSION-REVISION-PLATFORM.ipkg")],["the package file read back by the reference","installation of it"])
p("C11","A build leaves its environment as it found it",
"After a build in an existing environment ended, successfully or not (an error, not being killed), the environment has exactly the files and packages it had before: what the build installed and the dependencies it needed are gone, and what was there is unchanged. A successful build leaves no temporary directory behind, unless asked to keep the directory it was made in, which is then kept.",
"fault_sequences histories inputs","every failing command, download, checksum or disk operation in a build, every environment content",
"One test checks that a successful build cleans up; no build fails after installing something.",
"ipkg/build.py ipkg/environments.py",
[("cleanup in Formula.build","ipkg/build.py")],[rec],["trees of the environment and of the temporary directory before and after"])
p("C12","A repository index is always valid and truthful",
"The index of a package repository can be read at any time, after any interruption of the command updating it, and once an update succeeded it lists exactly the packages which are in the repository, once each, with their meta data and the checksum of their content; building or adding a package adds or replaces its entry and keeps the others. After an interruption, updating it again gives that result.",
"crash_points fault_sequences histories schedules","every sequence of builds, rebuilds, additions, removals and updates, every crash point",
"Tests update an index once, without interruption and with one package.",
"ipkg/repositories.py ipkg/utils.py ipkg/files/atomic.py",
[("LocalPackageRepository.update_metadata/add/build_formula","ipkg/repositories.py")],[("repository index","meta data and checksums of packages","BASE/repository.json")],["index read by a new process compared with the packages on disk"])
p("C13","Batch builds end, isolate failures and can be resumed",
"Building a repository of formulas always ends, builds every formula whose dependencies can be provided, after these, and skips or fails the others without keeping the rest from being built. After an interruption, running it again builds what is missing, and running it once more does nothing.",
"inputs fault_sequences crash_points histories","every dependency graph between formulas, with loops and missing dependencies, every failing or interrupted build",
"Tests build two independent formulas with no failure.",
"ipkg/repositories.py ipkg/build.py",
[("LocalPackageRepository.build_formulas","ipkg/repositories.py")],[("repository index","","BASE/repository.json")],["packages and index after a batch","order in which packages appear"])
p("C14","Readers see the state before or after a change",
"Commands which only read an environment or a repository while another one changes it (listing packages, printing variables, reading configuration, running a program, finding or installing packages of the repository) work, and see what was recorded before or after one step of that change. A reader never fails because of the writer, except for a package file which is being replaced, and never changes what the writer does.",
"schedules histories","every interleaving of the system calls of readers and one writer",
"Tests run one command at a time.",
"ipkg/utils.py ipkg/files/atomic.py ipkg/repositories.py ipkg/environments.py",
[("atomic replacement of meta data files","ipkg/files/atomic.py")],[rec],["output of readers under every schedule"])
p("C15","Programs run with the variables of the environment, failures surface",
"A program run in an environment gets its variables: the directories of the environment first in the search paths, the variables of all installed packages with the directories of the environment substituted, and the rest of the caller's variables; a program which just installed packages and a new one give the same. If the program cannot be run, exits with another status than zero or dies of a signal, the command fails.",
"histories fault_sequences configurations","every history of installed packages and caller variables, every way a child program may end",
"Tests compare fixed strings for an empty environment and one exit status.",
"ipkg/environments.py ipkg/utils.py ipkg/cli.py",
[("EnvironmentVariables","ipkg/environments.py"),("execute","ipkg/utils.py")],[],["environment and arguments of simulated child programs","exit status"])
p("C16","An archive is unpacked whole or the build fails",
"Unpacking sources (tar.gz, tar.bz2, tar.xz, zip, local or remote) gives exactly the files of the archive, or fails: an error of the disk, of the network or of the decompressor is never taken for success, and the build does not go on with part of the sources.",
"fault_sequences inputs","every archive, format, disk or child failure during extraction",
"Tests unpack one archive of each kind on a healthy disk.",
"ipkg/utils.py ipkg/build.py",
[("unarchive","ipkg/utils.py"),("execute","ipkg/utils.py")],[],["source tree compared with the archive","what configure and make were given"])
p("C17","Creating an environment can be interrupted and resumed",
"Creating an environment gives its directories and installs its requirements in order, or fails; creating one which exists fails and changes nothing unless asked to accept it. After any interruption creating it again (accepting what exists) completes it. Emptying its temporary directory leaves it with an empty one and everything else unchanged, and if this is interrupted, doing it again works.",
"crash_points fault_sequences inputs","every crash point and error while creating or cleaning, every requirements file",
"Tests create directories once on a healthy disk.",
"ipkg/environments.py ipkg/cli.py ipkg/utils.py",
[("EnvironmentDirectories.create, cleanup_tmpdir","ipkg/environments.py"),("mkenv","ipkg/cli.py"),("mkdir","ipkg/utils.py")],[],["trees, exit status"])
p("C18","Commands on different environments do not interfere",
"Commands running at the same time on different environments, sharing repositories, the download cache, the directory of temporary files and formulas, end as if each had run alone.",
"schedules inputs","every interleaving of the system calls of two or three commands",
"Tests run one command at a time.",
"ipkg/environments.py ipkg/build.py ipkg/files/cache.py ipkg/files/atomic.py",
[("temporary names","ipkg/files/atomic.py"),("mkdtemp","ipkg/build.py")],[],["states after concurrent runs compared with sequential ones"])
p("C19","Commands change nothing outside what they are about",
"A command changes nothing outside the environment, repository or package directory it is about, the download cache and the directory of temporary files, and does not touch the user's own files in the environment, whether it succeeds, fails or is interrupted.",
"histories crash_points fault_sequences inputs","every history and every fault",
"Tests look only at what they expect to change.",
"ipkg/environments.py ipkg/build.py ipkg/repositories.py",
[("paths built from the prefix","ipkg/environments.py")],[],["the whole simulated disk before and after each command"])
p("C20","The solver's plans are valid whatever the hash order",
"A list of packages or formulas returned by the dependency solver contains everything the target needs, each after its own dependencies, with versions satisfying every requirement, or solving fails; the result does not depend on hash order.",
"inputs schedules","every requirement graph and every iteration order of hash sets",
"Tests solve a few fixed graphs with whatever hash order the interpreter has.",
"ipkg/dependencies.py ipkg/requirements.py",
[("Solver.solve","ipkg/dependencies.py")],[],["result of Solver.solve"])
p("C21","Requirements, versions and platforms are compared correctly",
"Requirement strings are parsed into the constraints they state, merging requirements gives their conjunction, versions are totally ordered as documented, and a package matches a platform as documented.",
"inputs","every string and pair of values",
"Tests check a table of examples.",
"ipkg/requirements.py ipkg/versions.py ipkg/platforms.py ipkg/regex.py",
[("Requirement","ipkg/requirements.py"),("versions.compare","ipkg/versions.py"),("Platform","ipkg/platforms.py")],[],["return values"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
