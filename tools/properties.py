prop('P01', 'swap exchanges two paths in one atomic step, or changes nothing',
  """Swapping two existing paths of one device exchanges the objects the two names are bound to
  (file, directory or symbolic link, which is not followed, by absolute or relative path) in a
  single step: at every instant, also when the process is killed at any point or a system call
  fails, each name is bound to one of the two objects and neither object is unreachable. The call
  succeeds only if the exchange happened; when it raises, nothing at all has changed, and nothing
  but the two bindings ever changes.""",
  'inputs crash_points fault_sequences',
  """every pair of paths (kinds, spellings, nesting, devices, missing names), every point at which a
  call fails or the process dies, and an observer that looks after every system call""",
  """the tests swap one pair of directories by absolute path and look only afterwards; they see no
  intermediate state, failure, crash, link or relative path""",
  'augpathlib/swap.py augpathlib/core.py',
  [('renameat2 with RENAME_EXCHANGE', 'augpathlib/swap.py swap_linux'),
   ('existence and device checks', 'augpathlib/core.py AugmentedPath.swap')],
  ['AugmentedPath.swap', 'directory entries of both parents after every system call'],
  """seeded trees and swaps in a simulated kernel, an observer after every mutating call, errno,
  interrupt and kill faults at recorded steps""",
  """Exploration over seeds: whole-tree comparison with the only two legal results and an observer of
  the two directory entries after every mutating call. Trusts that renameat2(RENAME_EXCHANGE) is
  atomic and the simulated kernel (compared with the real one by tools/selftest.py).""")

prop('P02', 'swap_carefree never loses either object and undoes a failed attempt',
  """Where no atomic exchange is possible, the carefree swap still never loses, duplicates or alters
  either object: after any failure, interrupt or kill at any point both are intact and reachable
  under one of the two names or in one directory beside the target, and nothing else has changed.
  When it returns, the two are exchanged and nothing is left over; when it raises after at most one
  failing step, each name is bound to one of the two objects again.""",
  'inputs crash_points fault_sequences',
  """every pair of paths, every file system with and without exchange support, every failing or
  interrupted step (one or several) and every kill point of the multi-step fallback""",
  """the test runs the path where the atomic swap works, so no step of the fallback is ever executed,
  let alone failed or interrupted""",
  'augpathlib/core.py',
  [('fallback of three renames with rollback', 'augpathlib/core.py AugmentedPath.swap_carefree')],
  ['AugmentedPath.swap_carefree', 'inventory of all inodes before and after'],
  """seeded trees on simulated file systems without RENAME_EXCHANGE, one or two faults placed on the
  renames, inventory of every inode afterwards""",
  """Exploration over seeds: conservation of every inode (content, attributes, link count) and precise
  result checks. Process-kill crash model: completed system calls are durable.""")

prop('P03', 'rmtree removes exactly what is below the path, or reports an error',
  """Recursive removal of an absolute path removes that path and what is below it and nothing else:
  symbolic links are removed and never followed, and no object outside changes, whatever fails, is
  interrupted or is added by other processes meanwhile. If it returns without having called the
  error callback and without ignore_errors, nothing is left; every failure is raised, given to
  the callback, or ignored on request. Unless the danger flag is exactly True it refuses relative
  paths, top level paths, home directories and the current working directory before it changes
  anything.""",
  'inputs crash_points fault_sequences schedules',
  """every tree (links to outside, odd names, hard links, unreadable directories), argument, option
  and working directory, every failing call or kill point, every interleaved outside change""",
  """the tests remove a few small trees on a healthy disk; no failing call, concurrent change, link
  to the outside with an error beside it, or crash is exercised""",
  'augpathlib/core.py',
  [('refusal rules and link checks', 'augpathlib/core.py AugmentedPath.rmtree')],
  ['AugmentedPath.rmtree', 'whole file system before and after'],
  """seeded trees and options in a simulated kernel, errno, interrupt and kill faults, changes by
  another process between system calls, whole file system compared""",
  """Exploration over seeds. Assumes nobody replaces a directory of the tree by a link while it is
  removed (the race the function documents).""")

prop('P04', 'rmdirtree removes exactly the directories that hold no files',
  """Pruning empty directories removes only directories that are empty at that moment: no file and no
  symbolic link ever disappears, links are never followed, and a path that is itself a link is
  refused, whatever fails or is added by other processes meanwhile. When nothing fails, exactly the
  directories (the path itself included) whose subtree holds nothing but directories are gone.""",
  'inputs crash_points fault_sequences schedules',
  """every tree shape, equal names at different levels, links, unreadable directories, every failing
  call or kill point, every interleaved outside change""",
  """the tests prune two small trees without failures or concurrent additions""",
  'augpathlib/core.py',
  [('bottom-up walk with a set of deleted directories', 'augpathlib/core.py AugmentedPath.rmdirtree')],
  ['AugmentedPath.rmdirtree', 'whole file system before and after'],
  """seeded trees in a simulated kernel, faults and outside changes between system calls, result
  compared with a reference model""",
  """Exploration over seeds: exact comparison with a small model when nothing fails, safety checks
  otherwise.""")

prop('P05', 'copies never clobber without force and are byte for byte exact',
  """Copying a file to, from or into a path never touches an existing target (also a dangling link or a
  directory) unless force is given, never changes its source, and changes nothing but the target.
  When the copy returns, the target holds exactly the bytes of the source; when nothing fails, a copy
  between a readable source and a writable target succeeds, and a copy of a file onto itself is
  refused without harm.""",
  'inputs crash_points fault_sequences',
  """every pair of source and target (kinds, links, hard links, odd names and sizes), every failing,
  short or interrupted call, full disk and kill point""",
  """the tests copy one or two small files on a healthy disk; short writes, full disks, links to the
  source and failures between the calls never occur there""",
  'augpathlib/core.py',
  [('refusal of existing targets', 'augpathlib/core.py AugmentedPath.copy_to'),
   ('streamed copy', 'augpathlib/core.py LocalPath.copy_to')],
  ['copy_to', 'copy_from', 'copy_outto', 'copy_infrom', 'whole file system before and after'],
  """seeded trees and copies in a simulated kernel, short reads and writes, full disk, errno, interrupt
  and kill faults, bytes and whole file system compared""",
  """Exploration over seeds. Forced copies by AugmentedPath (shutil) into a directory are not
  judged.""")

prop('P06', 'a streamed write stores exactly the stream, or reports an error',
  """Assigning a chunk generator to the data of a local path stores exactly the concatenated chunks
  (or appends them, on request) and keeps mode and extended attributes of an existing file. An error
  of the generator or of the disk is raised, never swallowed; if the generator fails before its first
  chunk nothing has changed, and otherwise the file holds the old content or a beginning of the
  new.""",
  'inputs crash_points fault_sequences',
  """every chunk sequence (none, empty chunks, large ones), every point at which the generator, a
  write or the process fails""",
  """the tests write one or two healthy streams; failing sources, short writes and full disks are not
  exercised""",
  'augpathlib/core.py',
  [('first chunk is pulled before the file is opened', 'augpathlib/core.py LocalPath.data setter'),
   ('append and pass-through', 'augpathlib/core.py LocalPath._data_setter')],
  ['LocalPath.data', 'file content afterwards'],
  """seeded streams that fail at seeded chunks, short writes, full disks, errno, interrupt and kill
  faults in a simulated kernel""",
  """Exploration over seeds against a byte-level reference. Process-kill crash model.""")

prop('P07', 'reads yield exactly the bytes of the file, whole or by ranges',
  """The chunks read from a local path concatenate to exactly the content of the file, or of the
  requested ranges in order (a range ends before its end, open-ended or past the end of file means up
  to it, a negative start counts from the end), for every chunk size and for several readers of one
  path at a time. A failing read is raised after right bytes only, and reading changes nothing.""",
  'inputs schedules fault_sequences',
  """every content, size, chunk size, list of ranges, interleaving of readers and pattern of short or
  failing reads""",
  """the tests read small files whole; the range code has a handful of sampled boundaries and no short
  or failing reads""",
  'augpathlib/core.py',
  [('range arithmetic', 'augpathlib/core.py LocalPath._data'), ('LocalPath.data', 'augpathlib/core.py')],
  ['LocalPath.data', 'LocalPath._data'],
  """seeded files, ranges and reader interleavings with short, failing and interrupted reads in a
  simulated kernel, compared with slices of the content""",
  """Exploration over seeds against slicing as the reference.""")

prop('P08', 'checksums and etags depend on the bytes alone',
  """checksum and etag of a local path are the digests of its bytes: the same for every chunk size,
  split into updates, pattern of short reads and number of earlier looks at the digest, with extra
  digests equal to those computed alone. A failing read is raised instead of giving a digest of what
  was read so far, and a path that is not a file has none.""",
  'inputs fault_sequences',
  """every content and size around multiples of the chunk sizes, every split, digest algorithm and
  pattern of short or failing reads""",
  """the tests compare two or three fixed files; boundaries of chunk size and etag part size and failing
  reads are not reached""",
  'augpathlib/core.py augpathlib/utils.py',
  [('AugmentedPath.checksum', 'augpathlib/core.py'), ('multipart etag', 'augpathlib/utils.py etag')],
  ['LocalPath.checksum', 'LocalPath.etag', 'utils.etag'],
  """seeded contents, splits and short, failing and interrupted reads in a simulated kernel, compared
  with hashlib over the whole content""",
  """Exploration over seeds against hashlib.""")

prop('P09', 'metadata read from a local path is that of the file as it is now',
  """The metadata object of a local path describes the file at the moment it is asked for: size, times,
  inode, owner, mode and, if requested, checksum and etag are those of its present state, however
  often and in whatever form it was asked before, whoever changed, replaced or removed the file since
  and even if an earlier look failed half way. A failure to read is raised, and no later call returns
  what the failed one left behind.""",
  'inputs histories fault_sequences',
  """every history of looks (with and without checksum, with etag) and outside changes that keep size,
  inode or times, every failing read or stat, every clock jump""",
  """the tests look once at an unchanged file; staleness needs a history of looks and changes on one
  path object""",
  'augpathlib/core.py',
  [('memo keyed by a change tuple', 'augpathlib/core.py LocalPath._meta_maker')],
  ['LocalPath.meta', 'LocalPath.meta_no_checksum', 'inode and content in the simulated kernel'],
  """seeded histories of looks and outside changes in a simulated kernel with its own clock, failing
  and interrupted reads, every field compared with the inode""",
  """Exploration over seeds. Assumes that two states of a file differ in inode, size or one of the
  times.""",
  [('_meta', 'last metadata computed', 'LocalPath instance')])

prop('P10', 'extended attributes store and return exactly the bytes given',
  """Attributes set through a path are returned with exactly the bytes given, also empty or binary ones,
  individually and in the listing, by every path object for the same file and after a restart; nothing
  else about the file changes. A missing attribute is reported as missing only if it is missing; every
  other failure is raised and leaves the attribute as it was, and a path is sparse exactly if it or a
  directory above it carries the mark.""",
  'inputs crash_points fault_sequences',
  """every file kind, key, value, sequence of operations, failing call and kill point""",
  """the tests store a few values on a healthy file system; a failing attribute call looks the same to
  them as a missing attribute""",
  'augpathlib/core.py',
  [('XattrHelper', 'augpathlib/core.py'), ('sparse mark', 'augpathlib/core.py EatPath._sparse_root')],
  ['setxattr', 'setxattrs', 'getxattr', 'delxattr', 'xattrs', 'is_sparse'],
  """seeded sequences of attribute operations in a simulated kernel, errno, interrupt and kill faults
  and restarts, compared with a dictionary per inode""",
  """Exploration over seeds on POSIX; the Windows streams back end is not run.""")

prop('P11', 'stored metadata reads back the same after a restart, or is refused',
  """Metadata stored for a file or directory (extended attributes) or a placeholder (the target of a
  symbolic link) reads back with every field equal to what was stored, also in a later process and
  whatever the file is named, and also when it was pickled, copied or put in a metastore; metadata the format cannot represent is refused with an error instead of
  reading back as something else. Replacing metadata leaves no field of the old one behind. When a
  call fails or the process is killed, each field is the old or the new one, never a mixture within
  a field, and content and other files are untouched.""",
  'inputs crash_points fault_sequences',
  """all field values (any unicode, separators of the format, time zones, zero, empty, huge), sequences
  of stores and restarts, every failing call and kill point between the single attribute writes""",
  """the tests store two or three fixed metadata objects in one process; no restart, failure, kill,
  replacement or value containing the separators of the format occurs""",
  'augpathlib/meta.py augpathlib/caches.py augpathlib/core.py',
  [('xattr codec of PathMeta', 'augpathlib/meta.py _PathMetaAsXattrs'),
   ('symlink codec of PathMeta', 'augpathlib/meta.py _PathMetaAsSymlink'),
   ('storage in attributes', 'augpathlib/caches.py XattrCache meta getter and setter'),
   ('storage in links', 'augpathlib/caches.py SymlinkCache meta getter and setter')],
  ['.cache.meta of the path in a new process', 'PathMeta.as_xattrs / as_symlink and from_xattrs / from_symlink'],
  """seeded metadata and store/restart histories in a simulated kernel with simulated xattrs, errno,
  interrupt and kill faults between the attribute writes; field-wise comparison after every operation""",
  """Exploration over seeds. None and empty values mean not set. One writer at a time.""",
  [('cached metadata', 'what is known of the remote object', 'xattrs of the file, target of the placeholder link')])

prop('P12', 'a placeholder update replaces metadata only by newer, and loses none',
  """Setting metadata on an existing placeholder replaces it only if the new metadata differs and, for
  another id, is newer (and for the same id does not forget the size); otherwise the placeholder stays
  byte for byte the same or the call raises. The superseded metadata is kept in the trash, and no
  failure or kill point leaves the old metadata nowhere.""",
  'inputs histories crash_points fault_sequences',
  """all pairs of metadata (equal, older, newer, without times, other ids, huge ids), histories of
  updates and restarts, every failing call and kill point of the rename-and-relink sequence""",
  """the tests perform single updates that succeed; the decision table over missing times, the trash,
  and every partial failure of the two step replacement stay unexplored""",
  'augpathlib/caches.py',
  [('decision which metadata wins', 'augpathlib/caches.py SymlinkCache.meta setter / _meta_updater'),
   ('moving the old link to the trash', 'augpathlib/caches.py _CachePath.crumple')],
  ['SymlinkCache.meta', 'all link targets in the tree and the trash'],
  """seeded update histories in a simulated kernel, errno, interrupt and kill faults; a reference
  decision table and an inventory of all link targets after every operation""",
  """Exploration over seeds against a reference decision table written from the rule in the code's
  messages. Only the latest superseded metadata of one id is kept.""",
  [('trash', 'superseded metadata by id', '.operations/trash')])

prop('P13', 'pulling remote changes never loses what the user wrote locally',
  """Whatever sequence of remote changes (rename, move, new content, deletion, addition) is pulled by
  refresh or bootstrap, whatever fails and wherever the process is killed, the bytes of every file
  the user wrote or edited in the tree remain under some name. A file whose content differs from
  what was fetched is not overwritten: if the remote content changed as well, that is reported as an
  error and the edited file stays in place.""",
  'inputs histories crash_points fault_sequences',
  """all trees, histories of local edits, remote changes, pulls and restarts, failures of system calls
  and of the remote, corrupted and cut downloads, every kill point""",
  """the tests have no remote that changes, no local edit during a history, and no failure or kill in
  the middle of a pull""",
  'augpathlib/caches.py augpathlib/remotes.py',
  [('comparison with cached and new checksum', 'augpathlib/caches.py PrimaryCache._meta_updater'),
   ('crumple to the trash and roll back', 'augpathlib/caches.py PrimaryCache._meta_updater, _CachePath.crumple'),
   ('moving to where the remote has it', 'augpathlib/caches.py _CachePath.move')],
  ['every file content in the project tree after each operation', 'exceptions of refresh and bootstrap'],
  """a simulated remote and user acting on a tree in a simulated kernel, seeded histories with restarts,
  system call and download faults and kills; inventory of every content the user wrote""",
  """Exploration over seeds. The remote is a table in the harness (as the documentation describes a
  binding); it reports checksums. Explicit fetches over an edited file are requests to overwrite.""")

prop('P14', 'a fetch yields the remote content or says it did not',
  """When fetch returns for a file within the size limit, the file has the content the remote delivers
  for the recorded id with the recorded size, and content that does not match the recorded checksum is
  recorded as an error in the metadata; over the limit nothing changes. A fetch never changes the id,
  never touches another path, and after a failure or a kill at any point a placeholder is still a
  placeholder or has the full content, and fetching again succeeds.""",
  'inputs crash_points fault_sequences',
  """all sizes and limits, files with and without checksum or file id, stale metadata, cut and corrupted
  downloads, failing calls, short and torn writes and every kill point""",
  """no test fetches from a remote that fails, delivers too little or something else, or dies halfway""",
  'augpathlib/caches.py augpathlib/core.py',
  [('size and checksum checks', 'augpathlib/caches.py _CachePath.fetch'),
   ('recorded mismatch', 'augpathlib/caches.py _CachePath.validate_file'),
   ('writing chunks to the file', 'augpathlib/core.py AugmentedPath.data setter')],
  ['_CachePath.fetch', 'content and metadata of the file'],
  """a simulated remote delivering chunks, download faults (error, cut, corruption), system call faults
  and kills; comparison of content, metadata and all other paths""",
  """Exploration over seeds. Corruption is required to be noticed where the remote gives a checksum.""")

prop('P15', 'a move changes the name only and loses neither content nor identity',
  """Moving a cached file, placeholder or directory (to a target path or to where the remote has it)
  gives the target exactly the content, metadata and children the source had and removes the old
  name. Existing content with another identity at the target is never replaced, a refused move changes
  nothing, and no failure or kill point makes a content or an id of the tree disappear.""",
  'inputs crash_points fault_sequences histories',
  """all trees of fetched files, placeholders and directories, targets that are free, occupied by the
  same or another id, by user files or missing parents, every failing call and kill point""",
  """the tests move one or two directories to free targets; occupied targets, failures and kills between
  unlink and rename are not exercised""",
  'augpathlib/caches.py',
  [('target checks, unlink and rename', 'augpathlib/caches.py _CachePath.move')],
  ['_CachePath.move', 'contents and ids in the tree'],
  """seeded trees and moves in a simulated kernel with a simulated remote, errno, interrupt and kill
  faults; inventory of contents and ids, shape of the moved object""",
  """Exploration over seeds. Empty directories and placeholders of the same id may be replaced; the
  trash keeps the latest object per id.""")

prop('P16', 'bootstrap makes the directory mirror the remote, also after failures',
  """A recursive bootstrap that returns leaves a tree in which every remote object is present at the
  path the remote gives it with the remote's metadata, directories as directories and files as
  placeholders or with their content, and nothing else is tracked, also after directories were
  renamed, moved or deleted on the remote; what it returns is that. Bootstrapping again changes
  nothing, and after any failure or kill of a bootstrap another one completes it.""",
  'inputs histories crash_points fault_sequences',
  """all remote trees, additions, content changes and directories that are renamed, moved or deleted between runs, failing system calls and remote
  requests, kills at every point, restarts""",
  """the tests have no remote with a tree that can fail halfway, and no second run over the leftovers
  of a first""",
  'augpathlib/caches.py augpathlib/remotes.py',
  [('recursive bootstrap', 'augpathlib/caches.py _CachePath.bootstrap, _bootstrap'),
   ('creating directories and placeholders', 'augpathlib/caches.py _bootstrap_prepare_filesystem')],
  ['_CachePath.bootstrap', 'paths, kinds and metadata of the tree compared with the remote'],
  """a simulated remote bootstrapped into a simulated kernel, system call, download and kill faults,
  retries after restarts; tree compared with the remote, idempotence checked""",
  """Exploration over seeds. Renames and deletions are pulled by refresh (P13), not by bootstrap.""")

prop('P17', 'answers about a remote path are those of that path, or an error',
  """Whatever a remote path is called and however it was made (absolute, relative to the anchor, joined,
  derived), asking for its existence, kind, stat, metadata, access, checksum or data gives what the
  remote host has at exactly that path or raises: never the answer to another question, data that was
  cut off, or a failure reported as an answer. A name never makes the remote host run a command, and
  after a timeout later questions are answered correctly again.""",
  'inputs histories fault_sequences schedules',
  """all names including shell and terminal syntax, all sequences of questions, timeouts with late or
  partial output, lost connections, failing commands, permissions""",
  """the tests need a real ssh host (they are skipped without network) and use two ordinary names; no
  timeout, late answer, failing command or hostile name occurs""",
  'augpathlib/remotes.py augpathlib/utils.py',
  [('one command and its answer', 'augpathlib/remotes.py SshRemote._ssh, _answer'),
   ('building remote commands', 'augpathlib/remotes.py SshRemote._stat_cmd, checksum, data, children'),
   ('path of a remote object', 'augpathlib/remotes.py SshRemote.rpath'),
   ('reading stat output', 'augpathlib/utils.py StatResult')],
  ['SshRemote.stat, exists, is_file, is_dir, checksum, data, meta, access, children, rpath'],
  """a simulated remote host (file tree, shell, coreutils, terminal) behind the pxssh and Popen seams,
  seeded names, questions, remote changes, late answers, end of file, cut data; answers compared with
  the simulated tree, commands that ran with a marker""",
  """Exploration over seeds. The remote host is a stub; its echo, prompt, wrapping and quoting rules were
  compared by hand with bash 5.2 behind pxssh.""")

prop('P18', 'committing a path commits that path and touches nothing else',
  """Committing a path of a repository makes exactly one commit on top of HEAD that differs from it only
  within that path and holds what the path had there (its working tree content when committing from the
  working tree), with the message and date that were given, whatever the path is called. Everything else stays as it was: the working tree,
  what is staged of other paths, untracked files, the stash and other refs. A failure or kill at any
  point loses none of this and leaves HEAD at the old commit or at such a new one, and once it is over
  (stale locks removed) committing works again.""",
  'inputs histories crash_points fault_sequences schedules',
  """all working tree, index and HEAD states, all names including those that are patterns or options, all
  git commands or file operations that fail, kills between them, others editing files meanwhile""",
  """the tests commit one file in a repository where nothing else has changed or is staged, and nothing
  fails""",
  'augpathlib/repo.py',
  [('adding one path', 'augpathlib/repo.py RepoHelper.add_index'),
   ('committing one path', 'augpathlib/repo.py RepoHelper.commit, commit_from_working_tree')],
  ['RepoPath.commit, commit_from_working_tree, add_index', 'commit, index, working tree, refs and stash'],
  """real git in a scratch directory; every child process and every change by the Python side is a
  numbered step at which the plan fails it, holds locks, limits file sizes, kills or lets others edit
  files; commit, index, working tree, refs and stash compared with a model""",
  """Exploration over seeds. git and the kernel are real, so only what is between git commands is
  controlled; git itself is trusted.""")

prop('P19', 'leaving the context of a ref brings back what was there when it was entered',
  """While a repository is in the context of a ref (with repo.getRef(name)) its working tree is exactly
  that of the ref, and when the context is left, normally or by an exception, the branch, the working
  tree (modified, deleted, untracked and ignored files) and what is staged are as they were when it was
  entered, also when contexts are nested or commits and stashes were made inside. Stashes of the user
  stay, entering that fails changes nothing, and whatever fails or is killed, nothing that was not
  committed is lost: it is in the working tree or in the stash.""",
  'inputs histories crash_points fault_sequences schedules',
  """all uncommitted states, refs and nested histories inside the context, all git commands that fail or
  are killed at any step, others editing files meanwhile""",
  """the one test enters one branch with one untracked file and never compares the state afterwards; no
  staged changes, stashes, nesting, failing checkout or exception occur""",
  'augpathlib/repo_patch.py',
  [('entering and leaving a ref', 'augpathlib/repo_patch.py _Reference.__enter__, __exit__'),
   ('finding a ref by name', 'augpathlib/repo_patch.py _Repo.getRef, currentRefName')],
  ['git.Reference.__enter__, __exit__', 'HEAD, index, working tree and stashes before, inside and after'],
  """real git in a scratch directory, seeded states, refs and nested bodies; git commands are numbered
  steps at which the plan fails or kills them, holds locks or lets others edit; states compared, every
  blob accounted for""",
  """Exploration over seeds. States that git stash itself cannot bring back are not generated.""")

prop('P20', 'answers about a path in a repository are those of git for exactly that path',
  """Whether a path is modified, staged or has uncommitted changes, whether it differs between two of
  working tree, index and commits, which commits touched it and what its content is in the index or in a
  commit (byte for byte) are answered as git answers them for exactly that path, whatever it is called
  and whatever happened in the repository before. A path that does not exist is reported as such.""",
  'inputs histories fault_sequences',
  """all names including those that are patterns or options, all working tree, index and commit states
  reached by edits, staging and commits, all git commands that fail""",
  """the tests ask for one diff and for one byte of one file in a tag""",
  'augpathlib/repo.py',
  [('change detection', 'augpathlib/repo.py RepoHelper.modified, indexed, has_uncommitted_changes, diff'),
   ('history', 'augpathlib/repo.py RepoHelper.latest_commit, commits'),
   ('content in a ref', 'augpathlib/repo.py RepoHelper.show')],
  ['RepoPath.modified, indexed, has_uncommitted_changes, diff, latest_commit, commits, show'],
  """real git in a scratch directory, seeded histories of edits, staging and commits, failing git
  commands; answers compared with plain git for the literal path""",
  """Exploration over seeds. Diff questions are not judged when a git command of theirs fails (GitPython
  hides such errors).""")

prop('P21', 'paths inside of a zip archive exist, list and read as the archive says',
  """A path inside of a zip archive exists, is a directory, lists its descendants and reads, byte for byte,
  as the archive that is there now says, whether or not the archive was replaced before, in place or
  not; the newest entry of a name counts. Any number of readers may be under way at the same time
  without disturbing each other, and what is read is never silently wrong when reads of the archive are
  short, fail or return damaged data. Paths outside of any archive behave as ordinary paths.""",
  'inputs histories schedules fault_sequences',
  """all archives (stored and deflated entries, explicit and implied directories, duplicate entries), all
  interleavings of readers and replacements, all I/O faults""",
  """the tests ask an archive of a few files whether they exist and read one of them""",
  'augpathlib/zip.py',
  [('archive index', 'augpathlib/zip.py ZipInternalPath._new, __new__, rchildren, children, exists, is_dir'),
   ('readers', 'augpathlib/zip.py ZipInternalPath.open, data'),
   ('archive lookup', 'augpathlib/zip.py ZipHelper.zip_path, ZipInternalPath, zip_relative_path')],
  ['ZipPath.exists, rchildren, open, asInternal; ZipInternalPath.is_dir, children, data'],
  """simulated file system, seeded archives and interleavings of readers and replacements of archives,
  injected read errors, short reads and bit flips; answers compared with a model of the archive""",
  """Exploration over seeds. Not judged: entries of an archive whose directory was read with a bit
  flipped, readers that were started before a replacement.""")

prop('P22', 'concurrent fetches all get the content and lose no metadata',
  """Any number of threads and processes may fetch files of a project at the same time, the same file
  included: without other faults every fetch succeeds, the file has the remote content, its metadata is
  what it was and no mismatch is recorded. Nobody who reads the file meanwhile gets part of a content,
  and with faults or a killed process a placeholder is still replaced by all of the content or not at
  all, with its metadata. (At most one of them writes to a file that is already there.)""",
  'inputs schedules fault_sequences',
  """all interleavings, at system calls and lines of the library, of the fetches of threads and processes;
  all points where one of them fails or is killed""",
  """the tests fetch in one thread; a comment in the code describes the race as a stochastic error""",
  'augpathlib/caches.py',
  [('fetch', 'augpathlib/caches.py _CachePath.fetch'),
   ('reading metadata', 'augpathlib/caches.py PrimaryCache.meta, SymlinkCache._meta_impl, EatCache.meta')],
  ['_CachePath.fetch, meta; LocalPath.data, cache'],
  """simulated threads and processes with their own modules, one at a time under a seeded scheduler with
  switch points at every system call and every line of the library; simulated file system and remote
  with faults""",
  """Exploration over seeds. Two writers to the same file that is already there are left out: the second
  truncates what the first checks.""")

prop('P23', 'the identity of the machine is the same in every process, from the first on',
  """Every process on a machine gets the same identity, also when there is none yet and several start at
  the same time, when a process that is making it up is killed at any point, and after any restart; an
  identity is never made up while a readable one is there, nor taken from an empty file, which other
  machines have too. When none can be read or stored, that is an
  error.""",
  'schedules crash_points histories fault_sequences',
  """all interleavings of first runs, all crash points and I/O errors in them, all states of the files""",
  """the tests ask for the identity once, where one is there""",
  'augpathlib/utils.py',
  [('identity', 'augpathlib/utils.py sysidpath, _raw_id, _bind_sysid_')],
  ['utils.sysidpath, LocalPath.sysid'],
  """simulated file system; processes start (import the library) one after the other, and concurrently
  under a seeded scheduler with switch points at every system call and line, with faults""",
  """Exploration over seeds. An empty file that is already there when several processes start at once is
  left out.""")

prop('P24', 'whether and what a path is, is answered as the kernel would, or not at all',
  """Whether a path exists and is a file, a directory, a link, a broken link or not a link is answered as
  the kernel answers at that moment, loops and links to below themselves included; where the kernel
  gives no answer there is an error. The target of a link is returned as it is, access is what the
  kernel grants, and resolving an existing path gives its one path without links.""",
  'inputs histories fault_sequences',
  """all trees with links of any kind (loops, chains, dangling, through other links), permissions, relative
  paths and working directories, all errors of the system calls""",
  """the tests look at a few links in a clean directory""",
  'augpathlib/core.py',
  [('predicates', 'augpathlib/core.py AugmentedPath.exists, is_file, is_dir, is_symlink, is_broken_symlink, '
                  'exists_not_symlink'),
   ('links', 'augpathlib/core.py AugmentedPath.readlink, resolve'),
   ('access', 'augpathlib/core.py AugmentedPath.access')],
  ['AugmentedPath.exists, is_file, is_dir, is_symlink, is_broken_symlink, exists_not_symlink, readlink, resolve, '
   'access'],
  """simulated file system, seeded trees with odd links, injected errors and changes by others between
  calls; answers compared with the simulated kernel's""",
  """Exploration over seeds. resolve and access are not judged when one of their calls fails: the standard
  library takes such errors for an answer.""")

prop('P25', 'a listing has everything that is there, once, and nothing else',
  """The children of a directory and everything below it are listed completely, each once, without
  following links below it; in the root directory of a project exactly the library's own and
  the ignored directories are left out, whatever other files are called. What others add or remove
  meanwhile may be missing or there, but nothing else is.""",
  'inputs histories fault_sequences',
  """all trees, names and links, in projects with placeholders and elsewhere; all changes by others and
  errors while it is listed""",
  """the tests list directories that nobody changes and with no odd names""",
  'augpathlib/core.py',
  [('listing', 'augpathlib/core.py LocalPath.children, rchildren'),
   ('what is ignored', 'augpathlib/caches.py _CachePath.cache_ignore')],
  ['LocalPath.children, rchildren'],
  """simulated file system, seeded trees and projects, injected errors and changes by others while the
  listing is under way; compared with the simulated tree""",
  """Exploration over seeds. Directories that cannot be read are left out of rchildren by the standard
  library; links to directories in the root of a project are not judged.""")

prop('P26', 'contexts and the directory stack return to where they were entered from',
  """Leaving the context of a directory returns to the working directory it was entered from, however
  contexts are nested, the same path object reused, or the body changes directory, fails or uses the
  directory stack. pushd and popd keep that stack as a shell does, and one that fails leaves the working
  directory and the stack as they were.""",
  'inputs histories fault_sequences',
  """all nestings of contexts, pushes, pops and changes of directory, all paths (relative, links, removed,
  closed) and all failing calls""",
  """the tests enter one directory and leave it""",
  'augpathlib/core.py',
  [('contexts', 'augpathlib/core.py AugmentedPath.__enter__, __exit__; augpathlib/caches.py _CachePath.__enter__'),
   ('stack', 'augpathlib/core.py AugmentedPath.pushd, popd')],
  ['with AugmentedPath, pushd, popd, chdir'],
  """simulated file system, seeded programs of nested contexts and stack operations with failing calls and
  removed directories; compared with a model""",
  """Exploration over seeds. Directories that are to be returned to are not renamed meanwhile.""")

prop('P27', 'a partial mirror has what was asked for, and says that it is partial',
  """Pulling an object recursively while its id is in `sparse` brings all directories below it and exactly
  the files that the remote includes, and marks it: is_sparse is true of it and of every path
  below it, placeholders and relative paths included, in every later process until the mark is cleared, and
  of nothing else. An object that is in `skip`, or not in a given `only`, brings nothing. A failed attempt
  brings nothing that was not asked for and can be repeated.""",
  'inputs histories crash_points fault_sequences',
  """all remote hierarchies, combinations of the options, repeated and failing pulls, restarts and ways to
  write the path""",
  """the tests never pull with these options and never ask whether something is sparse""",
  'augpathlib/caches.py, augpathlib/core.py',
  [('options of bootstrap', 'augpathlib/caches.py _CachePath.bootstrap, _bootstrap, _bootstrap_recursive'),
   ('mark', 'augpathlib/core.py EatPath._sparse_root, is_sparse, _mark_sparse, _clear_sparse')],
  ['RemotePath.bootstrap(recursive, only, skip, sparse)', 'LocalPath.is_sparse, cache.is_sparse'],
  """simulated file system and remote service, seeded hierarchies and pulls, errno, interrupt and kill faults,
  restarts; what is there and every answer compared with a model""",
  """Exploration over seeds. The options are given with objects directly below the root; which files the
  remote includes is decided by the stubbed remote.""")

prop('P28', 'anchoring takes only a directory that is free or already its own',
  """A directory becomes the anchor of a remote only if it did not exist, was empty or already mirrors that
  very remote; anything else raises and is left as it was, and while the classes are
  anchored nothing else becomes their anchor. Afterwards the data directory is there. Interrupted, failed or
  killed anywhere, anchoring again succeeds, and stored objects are never lost when the place for them is
  moved.""",
  'inputs histories crash_points fault_sequences',
  """all contents of the place (files, links, mirrors of the same or another remote, half-made ones), orders
  of anchoring calls and restarts, all failing calls and crash points""",
  """the tests anchor once, in a clean directory""",
  'augpathlib/remotes.py, augpathlib/caches.py',
  [('anchoring', 'augpathlib/remotes.py RemotePath.dropAnchor, smartAnchor, anchorTo, anchorToCache'),
   ('anchor of the class', 'augpathlib/caches.py _CachePath.anchorClassHere, local_data_dir_init, weighAnchor')],
  ['RemotePath.dropAnchor, smartAnchor, anchorTo', 'cache.anchorClassHere, local_data_dir_init'],
  """simulated file system, seeded places and sequences of anchoring calls, errno, interrupt and kill faults,
  restarts; outcome and the whole file system compared with a model""",
  """Exploration over seeds. A cache class whose anchor is None while not anchored, and which weighs anchor
  together with the remote class.""")

prop('P29', 'a repository is made only outside of others, and is that of the paths in it',
  """Initialising or cloning makes a repository at exactly the path given, a clone at the name git would give
  it and with the commit and files of its remote, only where no repository is at or above it, and never
  alters files that were there; otherwise it raises and changes nothing, and after a failure of git it can
  be repeated as soon as what git left is removed. Every path belongs to the nearest repository at or above it, also after
  repositories were made, removed with rmtree, or made again.""",
  'inputs histories crash_points fault_sequences',
  """all arrangements of directories and repositories, histories of making, cloning and removing, names, and
  failures of git at any call""",
  """the tests initialise and clone once, with plain names, and nothing fails""",
  'augpathlib/repo.py',
  [('making', 'augpathlib/repo.py RepoHelper.init, clone_from, Repo'),
   ('belonging', 'augpathlib/repo.py RepoHelper.working_dir, repo, rmtree')],
  ['RepoPath.init, clone_from', 'RepoPath.working_dir, repo, rmtree'],
  """real git in a scratch directory driven by seeded histories, git failing or killed at seeded commands,
  full and unwritable directories; repositories, commits and files compared with a model""",
  """Exploration over seeds. The repositories have no links among their directories.""")

prop('P30', 'from every path of a project its root and its remote object are found',
  """From any path of a project, relative or absolute, tracked, untracked or a placeholder,
  find_cache_root gives the root of the project, and nothing outside of it. cache, remote, local, parent,
  child, children, rchildren and as_path lead to the same object and its place on the remote from whichever of them one starts,
  and asking changes nothing. When a call fails meanwhile the answer is still right, or an
  error or None.""",
  'inputs histories fault_sequences',
  """all project trees, names (those of directories may repeat along a path), current directories, ways to
  write the path, sequences of questions and failing calls""",
  """the tests ask from absolute paths of one small tree with distinct names""",
  'augpathlib/core.py, augpathlib/caches.py, augpathlib/remotes.py',
  [('root', 'augpathlib/core.py EatPath.find_cache_root'),
   ('views', 'augpathlib/caches.py _CachePath.remote, local, parent, __truediv__; core.py EatPath.cache, remote'),
   ('path of a remote', 'augpathlib/remotes.py RemotePath.as_path, _parts_relative_to')],
  ['LocalPath.find_cache_root, cache, remote', 'cache.remote, local, parent', 'RemotePath.as_path, cache, local'],
  """simulated file system and remote service, seeded trees and questions, errno, interrupt and kill faults;
  every answer compared with the model's tree, the file system with itself before""",
  """Exploration over seeds. Nothing changes on either side while it is asked.""")

prop('P31', 'a refreshed object is where and what the remote has now',
  """Refreshing an object of the tree leads it to where the remote has it: after a rename or a move its old
  name is gone and the object, with what is in it, is at the new place with the remote's metadata, in
  directories that are made when they are not here yet and have their metadata too; a file that was fetched and not edited has the new content (of any size), a placeholder stays one, what the remote deleted is in the
  trash, and nothing else has changed. The call tells whether the file is different, doing it again changes
  nothing, and after a failure or a kill the next refresh leads there.""",
  'inputs histories crash_points fault_sequences',
  """all trees, histories of remote changes and local edits, orders in which objects are refreshed, ways to
  ask for it, failing system calls and requests, kills and restarts""",
  """the tests have no remote that changes between two refreshes, and none that fails""",
  'augpathlib/remotes.py, augpathlib/caches.py',
  [('following the remote', 'augpathlib/remotes.py RemotePath.update_cache, _parent_changed'),
   ('refresh', 'augpathlib/caches.py _CachePath.refresh, crumple, move, PrimaryCache._meta_updater')],
  ['cache.refresh', 'RemotePath.update_cache', 'the tree, its metadata and the trash'],
  """simulated file system and remote service, seeded histories, errno, interrupt, kill and cut download
  faults; the tree compared with the model of the remote after each refresh""",
  """Exploration over seeds. Judged where the directories above the object are in step with the remote or not here yet
  and its new place is free (what is in the way is not touched: P13, P15).""")

prop('P32', 'an edited file is told from an unedited one',
  """Asked whether a fetched file is different from what was fetched, a path answers yes if and only if its bytes
  are: whatever the size, the times and the inode say, whatever sort of checksum the remote records for the
  file, and whatever was asked before; where none is recorded, if and only if they differ from what the remote
  has. Validating it notes a mismatch in its metadata in just the same cases. Asking otherwise changes nothing, and when a read or a request fails there is an error and no answer.""",
  'inputs histories fault_sequences',
  """all contents, edits (same size, same times, replaced inodes, edits that are taken back), sorts of recorded
  checksums, sequences of questions by fresh and kept path objects, failing and short reads and requests""",
  """the tests never edit a fetched file""",
  'augpathlib/core.py, augpathlib/caches.py, augpathlib/meta.py',
  [('comparison', 'augpathlib/core.py LocalPath.content_different, checksum, _meta_maker'),
   ('validation', 'augpathlib/caches.py _CachePath.validate_file'),
   ('kind of checksum', 'augpathlib/caches.py _CachePath._instance_cypher'),
   ('metadata', 'augpathlib/meta.py PathMeta.content_different')],
  ['LocalPath.content_different', 'cache.checksum', 'PathMeta.content_different', 'the file system'],
  """simulated file system and remote service, seeded worlds, edits and questions, errno, short read and
  interrupt faults; answers compared with the bytes""",
  """Exploration over seeds. A download that is cut off unnoticed is not judged (P14 is about those).""")

prop('P33', 'a directory made on the remote is here too, as that one, and once',
  """Making a directory on the remote through a local path (also with the parents it lacks) makes each missing
  directory once on the remote and once here, with its identity and metadata, and path and remote are connected
  from then on. It is refused without any change, here or there, when the object is already on the remote, when
  something here is in the way, when the parent is missing and parents were not asked for, or outside of a project.
  After a failure or a kill nothing else has changed, and a pull leads to the same state.""",
  'inputs histories crash_points fault_sequences',
  """all trees, what is here or there already, depths, requests and answers that get lost, failing system
  calls, kills between the remote's directory, the one here and its metadata""",
  """the tests have no remote on which a directory can be made""",
  'augpathlib/core.py, augpathlib/remotes.py',
  [('making it', 'augpathlib/core.py LocalPath.mkdir_remote'), ('identity', 'augpathlib/core.py LocalPath.cache_init'),
   ('connection', 'augpathlib/remotes.py RemotePath.cache')],
  ['LocalPath.mkdir_remote', 'the tree and its metadata', 'the remote service'],
  """simulated file system and remote service, seeded trees and histories, errno, interrupt, kill and lost
  request or answer faults; both sides compared with what they were""",
  """Exploration over seeds. The service refuses a second directory of one name; one that does not would
  make a second when the answer is lost.""")

prop('P34', 'what earlier versions recorded is read as that, and can be worked with',
  """Placeholders in each format that an earlier version wrote (they name it: none, mdv1 to mdv6), and attributes
  that lack fields which came later, are read as the metadata that was recorded, with nothing in fields that the
  format does not have, and reading changes nothing. The objects of a tree that was left like this, also one that
  mixes formats, are refreshed like any other (they follow the remote, get its metadata, keep what was edited),
  and after a failure or a kill the next refresh leads there.""",
  'inputs histories crash_points fault_sequences',
  """all metadata in all earlier formats, trees that mix them, histories of work on them and changes of the remote,
  failing system calls and requests, kills and restarts""",
  """the tests read one placeholder of one earlier version""",
  'augpathlib/meta.py, augpathlib/caches.py',
  [('formats', 'augpathlib/meta.py _PathMetaAsSymlink.order, from_parts, from_symlink'),
   ('attributes', 'augpathlib/meta.py _PathMetaAsXattrs.from_xattrs'),
   ('use', 'augpathlib/caches.py SymlinkCache, XattrCache, PrimaryCache')],
  ['PathMeta.from_symlink', 'cache.meta', 'cache.refresh, RemotePath.update_cache', 'the tree and its metadata'],
  """simulated file system and remote service, trees written in the earlier formats by the harness, seeded
  histories, errno, interrupt, kill and cut download faults; metadata and tree compared with what was recorded""",
  """Exploration over seeds. The earlier formats are written down in the harness, after the code that reads
  them.""")

prop('P35', 'the uri of a path names its remote repository, ref and path, as they are',
  """The uris of a path (human, machine, api) of a repository whose remote is at GitHub name that repository, with
  every dot of its name, in whichever form the remote is written, the ref that was asked for (a branch, tag or
  commit) or else the branch that is checked out now, and the path inside of the repository, also for relative
  paths. For a clone of a local repository they are those of that repository. After branches, commits and remotes
  have changed they are the new ones, and asking changes nothing.""",
  'inputs histories crash_points fault_sequences',
  """all forms and names of remotes, paths, refs, histories of other programs changing branches and remotes between
  questions, git failing or killed at any call""",
  """the tests ask once, about the one repository they run in""",
  'augpathlib/repo.py',
  [('uris', 'augpathlib/repo.py RepoHelper._remote_helper, _remote_uri, remote_uri_api')],
  ['RepoPath.remote_uri_human, remote_uri_machine, remote_uri_api'],
  """real git in a scratch directory driven by seeded histories, git failing or killed at seeded commands, full and
  unwritable directories; every uri compared with a model""",
  """Exploration over seeds. Names need no quoting in a uri; without a ref a branch is checked out.""")

prop('P36', 'what was released of a package is told from its own tags and index only',
  """Of every package in a repository the last tag and its version, the commits since then, the releases at the
  package index and at GitHub, and the version in the repository are those of that package, whatever else the
  repository contains and however similar its names are; before a first tag all of its commits are unreleased. The
  next version is greater than all that were released, and the one the phase asks for. An index that does not answer
  is an error and not taken for one without releases, the next question is answered, and asking changes nothing.""",
  'inputs histories crash_points fault_sequences',
  """all sets of packages in a repository, histories of commits, tags, branches and releases between questions, the
  index and GitHub refusing, failing or garbling any answer, git failing or killed at any call""",
  """there are no tests of packages, they would need an index to ask""",
  'augpathlib/package.py',
  [('tags', 'augpathlib/package.py PackagePath.tag, version_tag, commits_since_last_release'),
   ('index', 'augpathlib/package.py PackagePath.pypi_json, github_json'),
   ('next', 'augpathlib/package.py next_version')],
  ['PackagePath.tag, version_tag, commits_since_last_release', 'PackagePath.version_latest_pypi, version_latest_released',
   'PackagePath.tag_latest_github, version_latest_github', 'PackagePath.version_next, command'],
  """real git and setuptools in a scratch directory, a simulated package index behind the transport of requests, driven
  by seeded histories with seeded http, connection and git faults; every answer compared with a model""",
  """Exploration over seeds. Packages without a MANIFEST.in, linear histories, versions of three numbers without a
  local part; GitHub not answering may be told as no releases, as the code says of its rate limit.""")
