p('C05','Batch collector: every accepted item is delivered, in order, once per batch',
 'A collector of size n answers "done" exactly on every n-th accepted promise (or when told to finish, if it has no size), and its answer carries the outcomes of the promises of that batch in the order they were handed in; all other calls answer "not done" with no value. Without restart only the first batch is ever delivered; with restart each further batch starts afresh, or with accumulation contains everything handed in so far. Items handed in while an earlier batch is still settling are never lost, and a rejected item makes exactly the answer of its batch reject.',
 ['schedules','histories','configurations'],'every interleaving of item arrivals and settlements, sizes and modes','Tests await each call in turn, so no item ever arrives while a batch is settling.',
 [F+'control/collectItems.ts'],[('batch buffer','control/collectItems.ts')])
p('C06','Cancellation, timeouts and delays settle once, by whoever comes first',
 'A cancellable execution settles with the callable\'s outcome or with the abort payload, whichever comes first, and nothing later changes it; the callable receives the extra arguments given. A time-limited execution yields the callable\'s outcome if it settles before the limit and otherwise the fallback\'s, runs the fallback only if the limit was reached first, and leaves no timer armed once settled. Delays and delayed runs fire exactly once, not before their duration, with the arguments given; durations are clamped at zero, taken from the inclusive range when a range is given, and rejected with a type error when they are not integers within 31 bits.',
 ['schedules','inputs'],'every order of settle, abort and timer events; every duration form','Tests use real timers and single orders; races between settle, abort and expiry are not exercised.',
 [F+'control/cancelExec.ts',F+'control/deferred.ts',F+'timeout/timeoutOr.ts',F+'timeout/setTimeout.ts',F+'timeout/timeoutMsResolve.ts',F+'timeout/constants/evaluateInt.ts',F+'delay/delay.ts',F+'delay/delayRun.ts',F+'delay/delayReturn.ts'],
 [('race with abort','control/cancelExec.ts'),('race with timer','timeout/timeoutOr.ts'),('duration evaluation','timeout/constants/evaluateInt.ts')])
p('C07','Call-count limits, alternation and singletons over any call history',
 'A once-function runs its callback on the first call that does not throw and afterwards never again, always answering that first result; a run-only-n function runs on the first n calls and answers the n-th result afterwards; a run-after-n function runs only from the n-th call on. Toggles alternate strictly between their values, and a selector calls exactly the branch its condition chooses with the call\'s arguments. A class made singleton yields one and the same instance for every construction, whatever the arguments, and distinct classes, including a subclass made singleton separately, never share an instance.',
 ['histories','inputs'],'every history of calls, throws and constructions over several wrapped functions and classes','Tests try one short history each.',
 [F+'limit/once.ts',F+'limit/runOnlyNTimes.ts',F+'limit/runAfterTimes.ts',F+'select/toggle.ts',F+'select/select.ts',F+'class/singletonClass.ts'],[('closure counters','limit/*.ts'),('static instance slot','class/singletonClass.ts')])
p('C08','Function composition, before/after hooks, binding and currying',
 'Composed functions run in the documented order, each exactly once, each receiving the previous result (the first one the call\'s arguments), and the final result is returned; before/after hooks run in their documented position with the documented arguments and results, and an error in one stage prevents the later stages and reaches the caller. Binding keeps receiver and preset arguments. A curried function runs exactly once, when all of its parameters have been supplied, with the arguments in the order supplied no matter how they were grouped over the calls, and a partially applied function can be reused without one use affecting another.',
 ['inputs','histories'],'every chain length, failure position, argument grouping and reuse order','Tests use fixed chains and one argument per call.',
 [F+'chain/compose.ts',F+'chain/before.ts',F+'chain/after.ts',F+'chain/withBefore.ts',F+'chain/withAfter.ts',F+'chain/applyBefore.ts',F+'chain/applyAfter.ts',F+'bind.ts',F+'currying.ts'],[('call chaining','chain/*.ts'),('argument accumulation','currying.ts')])
p('C09','Error-capturing adapters: same outcome for sync, async and promise sources',
 'The adapters that turn failures into values never throw or reject for a failing source, and never alter a successful outcome: the pair form gives [value, null] or [null, error], the silent form gives the value or undefined, and the catch form hands the exact error to its handler and answers with the handler\'s result. Conversion to a promise settles with exactly the outcome of the value, function, async function or promise given, passing the arguments through and never throwing synchronously. Each adapter runs its source exactly once.',
 ['inputs','fault_sequences'],'every source kind (value, sync, async, promise) and outcome (value, throw, reject, falsy errors)','Tests try a handful of sources; sync/async/falsy-error combinations are not covered.',
 [F+'control/padding.ts',F+'catch/noCatch.ts',F+'catch/tryCatch.ts',F+'catch/ifThrow.ts',F+'promise/toPromise.ts',F+'promise/executeToPromise.ts'],[('uniform conversion','promise/executeToPromise.ts')])
A='packages/array/src/'
p('C10','Array traversal: visiting order, early stop, results, sync and async alike',
 'Each traversal visits every element present exactly once in its direction (left to right or right to left), passing value, index and array; the mapping forms return the results in element order. The forms that can be stopped stop as soon as a callback answers exactly true, visiting nothing further. The serial async forms never start a callback before the previous one has settled, the concurrent forms start all callbacks at once and keep results in element order, and a failing callback rejects the traversal with its error without further serial visits.',
 ['schedules','inputs','fault_sequences'],'every array length, stop position, failure position, and settlement order','Tests visit small arrays with immediately settled callbacks.',
 [A+'each',A+'map'],[('loops','packages/array/src')])
p('C11','Tree building from flat records',
 'Turning flat records into a tree places every record exactly once: under the record its parent id names when there is one, and among the roots when its parent id is a root marker; siblings keep the order of the input, wherever parents and children stand relative to each other. Data is carried in the configured field or merged into the node without mutating the input records. Orphans are dropped, or reported by an error when asked for, never attached elsewhere.',
 ['inputs','configurations'],'every set of records, every order of them and every option combination','Tests use a few hand-written lists, mostly parents first.',
 [A+'toTree.ts'],[('lookup table of nodes','packages/array/src/toTree.ts')])
p('C12','Rearranging arrays loses, invents and reorders nothing',
 'Splitting an array into parts (by size or by count) yields parts whose concatenation is the array, with the documented sizes; moving an element keeps all others in order and puts it at the target; flattening yields the leaves in order; de-duplication keeps exactly the first occurrence of each value; sorting and shuffling yield permutations (sorted by the documented key, stably). Numeric ranges contain exactly the documented values in order. Functions documented to return a new array leave their input untouched.',
 ['inputs'],'every array, nesting, position (including negative ones) and size','Tests use a few sample arrays.',
 [A],[('index arithmetic','packages/array/src')])
p('C13','Random draws stay in range and can reach every value',
 'A random integer drawn from an inclusive range is always an integer inside the range and every value of the range, both ends included, can occur; a random element is an element of the array, a random float lies in [0,1), a random letter, digit string and colour has its documented alphabet and length. This holds for every value of the underlying random source, for both the fast and the secure variants, and for random durations.',
 ['inputs'],'every value of the random source (including its extremes) and every range','Tests draw from the real source; the extremes of the source are practically never drawn.',
 ['packages/number/src/range.ts','packages/number/src/rangeSafe.ts','packages/number/src/random.ts','packages/number/src/randomSafe.ts','packages/array/src/random.ts','packages/array/src/shuffle.ts','packages/string/src/random',F+'timeout/constants/evaluateInt.ts'],[('scaling of the unit interval','packages/number/src/range.ts')])
p('C14','Amounts in words and digit grouping',
 'Writing an amount in Chinese capital words is unambiguous: different amounts give different words, the words follow the standard reading (unit and section characters, exactly one zero character for each inner run of zero digits that must be read, the "whole" suffix only without fractional digits, sign first), and values outside the supported size are rejected rather than misread. Grouping digits inserts separators only between groups counted from the decimal point, so that removing them gives the original number text back.',
 ['inputs'],'every amount up to the supported size, sign and fraction','Tests sample a few dozen amounts; the zero rules depend on every digit pattern.',
 ['packages/number/src/amount','packages/number/src/withDelimiter.ts'],[('section/digit loop','packages/number/src/amount')])
p('C15','Cookie headers: what is written is what is read back',
 'A cookie built from name, value and attributes contains each given attribute exactly once in the documented form and none that was not given; parsing a cookie header returns every name with its full value, including values that contain "=" or are quoted. Parsing a set-cookie text returns name, value and every attribute, flags included. Splitting a combined set-cookie header at its commas never cuts inside an attribute such as an expiry date, and splitting what was joined gives the parts back.',
 ['inputs'],'every combination of names, values and attributes, and every list of cookies','Tests use sample headers.',
 ['packages/cookie/src'],[('header scanners','packages/cookie/src')])
FS='packages/fs/src/'
p('C16','Copying a directory tree reproduces it, and only writes below the target',
 'Copying a file, link or directory tree leaves at the target the same tree: same names, file contents and links (copied as links, not followed), with the source unchanged. With overwriting switched off nothing that already exists at the target, at any depth, is changed; with it on existing files are replaced. A failed copy never deletes or alters the source, and nothing outside the target path is created or changed.',
 ['inputs','configurations','fault_sequences'],'every tree of files, directories and links, every pre-existing target and overwrite setting, and failures while copying','The package has no tests.',
 [FS],[('recursive copy','packages/fs/src')])
p('C17','Deleting and clearing touch exactly the named tree',
 'Deleting removes exactly the named file, link or directory tree, and clearing a directory removes exactly what it contains and keeps the directory. A link is removed as a link: what it points to, and anything else outside the named path, is left untouched. Deleting something that does not exist, or clearing something that is not a directory, is reported as documented and changes nothing.',
 ['inputs'],'every tree of files, directories and links (to files, directories, nothing), inside and outside the named path','The package has no tests.',
 [FS],[('recursive removal','packages/fs/src')])
p('C18','Reading text: lines, fragments, scans and comparison do not depend on chunking',
 'Reading text line by line delivers every line once, in order, without its terminator, and says "done" exactly with the last one, for every mix of line endings, for strings and buffers, and for every way the stream cuts the content into chunks (also inside a line ending or a character). Reading a fragment returns exactly the requested inclusive byte range. Comparing two files answers "equal" exactly when their bytes are equal.',
 ['inputs','schedules'],'every content, line-ending mix, chunk boundary and range','The package has no tests.',
 [FS],[('line splitter','packages/fs/src'),('chunked comparison','packages/fs/src')])
p('C19','Finding and listing files follows the tree exactly',
 'Listing a directory tree returns each matching entry exactly once with its correct kind and path, honouring the filter and depth settings, and never loops or leaves the tree. Searching upwards for a directory or file tries the starting directory and each ancestor in order and returns the first match. Type questions (file, directory, link) answer for the entry itself as documented.',
 ['inputs','configurations'],'every tree, filter and starting point','The package has no tests.',
 [FS],[('directory walk','packages/fs/src')])
p('C20','Killing a process tree signals every descendant once, children first',
 'Killing a process also signals all of its descendants as listed by the system, each exactly once and with the requested signal, and reports completion exactly once after the last one. Processes that have already gone are skipped; any other failure is reported once as the error. An invalid process id signals nothing and is reported as an error.',
 ['histories','fault_sequences','schedules'],'every process tree, every order in which the system lists answer, and every per-process failure','The package has no tests; real trees and failures are racy.',
 ['packages/os/src'],[('tree builder and killer','packages/os/src')])
p('C21','Running commands: arguments arrive verbatim and the outcome is reported once',
 'Running a command passes each argument to the program verbatim, whatever characters it contains (spaces, quotes, shell metacharacters), and settles exactly once with command, exit status, signal and the complete output of both streams, whatever way the output arrives in pieces. A command that cannot be started is reported as a failure.',
 ['inputs','schedules','fault_sequences'],'every argument text, output chunking, exit status and failure','The package has no tests.',
 ['packages/process/src'],[('shell quoting','packages/process/src'),('stream collection','packages/process/src')])
R='packages/request/src/'
p('C22','HTTP redirects: bounded, and credentials never reach another host',
 'Following redirects issues at most the allowed number of further requests and then fails; each hop goes to the location the server named, resolved against the current address. Credentials (cookie, authorization, auth) are sent on only to the same host and stay removed once another host was visited; a post redirected by 301/302 or 303 continues as a body-less get, and by 307/308 keeps method and body. The call settles exactly once, with the final response or the error, and the caller\'s options object is not changed.',
 ['histories','inputs','fault_sequences'],'every redirect chain over hosts, statuses, methods and limits','The package has no tests and no network.',
 [R],[('redirect handling','packages/request/src')])
p('C23','HTTP requests carry what was asked and deliver what was received',
 'The request sent has the method, path, query, headers and body asked for: query and form values decode to exactly the given values, the declared content length is the byte length of the body, and caller headers win over defaults. The response body delivered is the decoded (decompressed) body whatever way it arrived in pieces, and every failure (network error, timeout, bad encoding) rejects the call exactly once with the connection closed.',
 ['inputs','schedules','fault_sequences'],'every body kind, text, encoding, chunking and fault position','The package has no tests and no network.',
 [R],[('option normalisation','packages/request/src'),('body decoding','packages/request/src')])
p('C24','Deep copies are equal, detached and keep sharing and cycles',
 'A deep copy has the same structure, types and values as the original, including nested arrays, plain objects, dates, regular expressions, maps, sets and binary data, and keeps shared references and cycles as sharing and cycles within the copy. No mutable object of the original is reachable from the copy, so changing either never shows in the other.',
 ['inputs'],'every finite object graph with sharing and cycles','The tests for it do not run in this environment; graphs are unbounded.',
 ['packages/util/src'],[('visited map','packages/util/src')])
p('C25','Object utilities: keys, derivation, deletion, ordering, paths and equality',
 'Listing keys or values at each level returns exactly the own properties that level names; deriving or deleting keys yields exactly the other properties; ordering keys changes nothing but order, at the requested depth and also for cyclic data. Writing a key path as text and reading it back gives the path, and reading a path from an object gives the value found there. Shallow equality holds exactly when both sides have the same keys with identical values, and no utility changes an argument it is not documented to change.',
 ['inputs'],'every object shape, property kind, key list and nesting','Tests use small sample objects.',
 ['packages/object/src'],[('key enumeration','packages/object/src')])
p('C26','Safe JSON conversion never loses the outcome',
 'Converting to JSON and parsing from JSON yields exactly what the platform\'s JSON functions yield, settles exactly once, and reports every failure (cycles, bigint, bad text, throwing callbacks) as a rejection carrying the cause, never as a synchronous throw. What is parsed from the conversion of JSON data is that data.',
 ['inputs','fault_sequences'],'every JSON value, replacer, indentation and failing input','Tests try a few values.',
 ['packages/object/src/stringify.ts','packages/string/src/parseJson.ts'],[('promise wrapping','packages/object/src/stringify.ts')])
S='packages/string/src/'
p('C27','Byte operations agree with UTF-8 and never cut a character',
 'The byte length and byte array of a text are those of its UTF-8 encoding, for every well-formed text including characters outside the basic plane. Splitting by a byte limit yields non-empty pieces whose concatenation is the text, that never cut a character, are filled greedily, and stay within the limit unless a single character alone exceeds it.',
 ['inputs'],'every well-formed text and every limit','Tests use only characters of the basic plane and one limit.',
 [S+'bytes',S+'character/codePointAt.ts'],[('code point walk','packages/string/src/bytes')])
p('C28','Trimming, space classes and word boundaries',
 'Trimming removes exactly the characters of the selected classes (space, zero-width, space-like, control, and the extra characters given, each taken literally) from the selected side or everywhere and nothing else; the remove-functions do the same for their class. Counting and searching functions (leading spaces or tabs, word start and end, starts-with, in-front-of, behind) agree with that definition for every position and for case-insensitive search, where text is matched literally.',
 ['inputs','configurations'],'every text, class selection, extra character and position','Tests use sample texts and harmless extra characters.',
 [S+'trim',S+'spaces',S+'words',S+'find',S+'starts'],[('generated character classes','packages/string/src/trim/trimRegSource.ts')])
p('C29','Quote and bracket scanners partition the text',
 'Processing the text outside (or inside) of quotes and brackets hands every part to exactly one side, in order: with an identity callback the text comes back unchanged, and quoted or bracketed parts are passed through verbatim when the outside is processed. The quote checkers answer the empty string exactly when every quote opened outside another is closed, honouring escapes, and otherwise the quote left open.',
 ['inputs'],'every arrangement of quotes, brackets, escapes and text','Tests sample sentences.',
 [S+'inside',S+'quote'],[('scanner state machine','packages/string/src/inside/bindOutside.ts')])
p('C30','Entities, escaping and replacement rules round-trip',
 'Encoding special characters as HTML entities (by name or number) and decoding gives the text back, text without such characters is unchanged, and decoding decodes each entity once, never the result of another decoding. A text turned into a pattern matches exactly itself. A list of replacement rules is applied one after the other, each to the result of the previous one.',
 ['inputs'],'every text over special, entity-forming and ordinary characters; every rule list','Tests sample entities.',
 [S+'character/htmlEntities.ts',S+'regexp',S+'multiReplace.ts'],[('entity tables','packages/string/src/character/htmlEntities.ts')])
p('C31','Pattern helpers enumerate matches completely and terminate',
 'Collecting all matches returns every match once, in order, for global and non-global patterns, terminates for patterns that match the empty text, and does not depend on or disturb the pattern\'s remembered position. The test-all and test-any helpers answer by the definition for every list of patterns whatever was matched before.',
 ['inputs','histories'],'every pattern kind (global, sticky, empty-matching), text and call history','Tests use fresh patterns once.',
 ['packages/regexp/src'],[('lastIndex handling','packages/regexp/src')])
p('C32','Terminal output: balanced colour codes and truthful progress',
 'Styled text contains the given text unchanged between an opening code and its matching reset, and nested or combined styles open and close every attribute once. A progress bar shows for every step the true count, total and percentage, never exceeds its width, and announces completion exactly once.',
 ['inputs','histories'],'every style combination, text, total and step sequence','Tests check single outputs.',
 ['packages/term/src'],[('escape sequence builder','packages/term/src')])
p('C33','Type predicates: one consistent classification, mirrored by assertions',
 'Each type predicate answers true exactly for the values of its documented class (primitive and boxed forms, filled and array variants, numeric classes, empty and non-finite corner values), so that the classes are disjoint, contained and complementary where documented. Every assertion throws exactly for the values on which its predicate is false and never otherwise, and none of them changes or consumes the value.',
 ['inputs'],'every predicate against a universe of values of every kind','Tests pick a few values per predicate and the assertions have no tests.',
 ['packages/types/src','packages/asserts/src'],[('tag and typeof classification','packages/types/src'),('typeGuard','packages/asserts/src/constants/typeGuard.ts')])
p('C34','Path handling keeps the place a path names',
 'Normalising and unifying separators are idempotent, keep the place the path names, and expand a leading home marker only. Platform questions about a path (absolute, Windows, UNC, relative) answer by the documented grammar.',
 ['inputs'],'every path over separators, dots, drive letters and home markers','Tests sample paths.',
 ['packages/path/src'],[('normalisation','packages/path/src')])
p('C35','Windows helpers and platform questions report what the system says','',
 ['inputs','configurations'],'every task list, command outcome, option set and platform','There are no tests for it, and they could not run on the platforms it is about.',
 ['packages/os/src/windows','packages/os/src/platform.ts','packages/process/src/open.ts'],[('parsing of the task list','packages/os/src/windows/taskList.ts'),('arguments of the shortcut script','packages/os/src/windows/makeShortcut.ts')])
p('C36','Values written as source text evaluate to the same values','',
 ['inputs'],'every graph of supported values, sync and async','Tests compare sample texts; equality after evaluation must hold for every combination and nesting.',
 ['packages/util/src/stringify.ts'],[('recursive writer','packages/util/src/stringify.ts stringifyInternal()'),('promise states','packages/util/src/stringify.ts possiblyAsyncStringify()')])
p('C37','Format checks accept exactly the texts of the documented formats','',
 ['inputs'],'every text over the characters that matter to the formats, up to the length limits','Tests sample a few texts per format.',
 ['packages/regexp/src'],[('address pattern','packages/regexp/src/isIp.ts'),('mail and link patterns','packages/regexp/src/source')])
p('C38','Arguments outside a function\'s stated domain are refused before anything happens',
 'Every function that states a condition on its arguments (counts, sizes, steps, positions, range ends, durations, levels, flags, callbacks, names and values of cookies, texts to read) throws for every argument that breaks the condition, whatever the other arguments and the data are, and accepts every argument that meets it. A refusal is a type error unless documented otherwise, and comes before anything has happened: no callback has run, nothing is printed and the given data is unchanged. NaN is never a count, a place or a duration.',
 ['inputs'],'every such function against a universe of values of every kind, at every place that has a condition','Tests try one or two bad values per function, with one set of other arguments; several functions have no such test.',
 ['packages/array/src','packages/number/src','packages/string/src','packages/function/src','packages/cookie/src','packages/object/src','packages/regexp/src','packages/term/src','packages/fs/src'],[('argument checks at the top of each function','@throws sections of the documentation')])
p('C39','A text is cut into sentences behind every sentence and nowhere else','',
 ['inputs'],'every text and every sequence of sentences with every option','Tests cut a few sample texts, always with the same neighbours.',
 ['packages/string/src/sentences'],[('sentence mark pattern','packages/string/src/sentences/toSentences.ts'),('quotes and brackets left alone','packages/string/src/inside/bindOutside.ts')])
p('C40','Making a Chinese text neat changes blanks and marks by rule and nothing else','',
 ['inputs'],'every sequence of Chinese, Latin, marks, operators and blanks, in both modes','Tests try one or two neighbours per mark; the rules are patterns applied one after another that consume each other\'s neighbours.',
 ['packages/string/src/corrector'],[('order of the rules','packages/string/src/corrector/plugins'),('pieces without the enhanced rules','packages/string/src/corrector/basic')])
p('C41','Writing a file leaves exactly the data there, or leaves the file as it was','',
 ['inputs','configurations','histories'],'every data, place, former content, encoding, flag, permission and switch','There is no test for writing, and a test of a few texts meets neither odd data nor the combinations of place, flag and switches.',
 ['packages/fs/src/writeFile.ts','packages/fs/src/mkdir.ts','packages/fs/src/readFile.ts'],[('what the data becomes','packages/fs/src/writeFile.ts writeFile()'),('folders on the way','packages/fs/src/mkdir.ts mkdir()'),('reading back','packages/fs/src/readFile.ts')])
exec(open(os.path.join(os.path.dirname(__file__),'statements.py')).read())
