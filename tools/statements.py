# final wording of statements (three sentences at most) and titles
ST={}
ST['C06']=(None,'A cancellable execution settles with the callable\'s outcome or with the abort payload, whichever comes first, and nothing later changes it; the callable receives the extra arguments given. A time-limited execution yields the callable\'s outcome if it settles before the limit; once the limit is reached first the fallback runs (and only then) and its outcome is the answer; no timer stays armed once settled. Delays and delayed runs fire exactly once, not before their duration, with the arguments given; durations are clamped at zero, taken from the inclusive range when a range is given, and rejected with a type error when they are not integers within 31 bits; clearing all timers leaves none of those set before and lets those set afterwards run. What is asked to run next runs once, after the code at hand and in the order asked; the log of a duration names exactly that duration.')
ST['C07']=(None,'A once-function runs its callback on the first call that does not throw and afterwards never again, always answering that first result (a call made while the callback runs does not run it again); a run-only-n function runs on the first n calls and answers undefined without running on every later one; a run-after-n function runs only from the n-th call on. Toggles alternate strictly between their values, and a selector asks its condition with the call\'s arguments and calls exactly the branch it chooses, with the same arguments. A class made singleton yields one and the same instance for every construction, whatever the arguments, and distinct classes, including a subclass made singleton separately, never share an instance.')
ST['C09']=(None,'The adapters that turn failures into values never throw or reject for a failing source, and never alter a successful outcome: the pair form gives [value, null] or [null, error], the silent form gives the value or undefined, and the form with an error handler hands it the exact error and answers with the handler\'s result. Conversion to a promise settles with exactly the outcome of the value, function, async function or promise given, passing the arguments through and never throwing synchronously. Each adapter runs its source exactly once.')
ST['C10']=(None,'Each traversal visits every element present exactly once in its direction (left to right or right to left), passing value, index and array; the mapping forms return the results in visiting order. The forms that can be stopped stop as soon as a callback answers exactly true, visiting nothing further. The serial async forms never start a callback before the previous one has settled, the concurrent forms start all callbacks at once and return the results in visiting order however they complete, and a failing callback rejects the traversal with its error without further serial visits.')
ST['C11']=(None,'Turning flat records with distinct ids into a tree places every record exactly once: under the record its parent id names when there is one, and among the roots when its parent id is a root marker; siblings keep the order of the input, wherever parents and children stand relative to each other. Data is carried in the configured field or merged into the node without mutating the input records. Orphans (and records that are only one another\'s descendants) are dropped, or reported by an error when asked for (naming the parents that are missing), never attached elsewhere; a record whose own id is a root marker is refused.')
ST['C12']=(None,'Splitting an array into parts (by size, or into a number of parts) yields parts whose concatenation is the array, with the documented sizes; moving an element keeps all others in order and puts it at the target; flattening yields the leaves in order; an array of pairs becomes an object with every key, whatever its name; de-duplication keeps exactly the first occurrence of each value. Sorting and shuffling yield permutations: sorted by the documented key, stably; shuffled so that every order is equally likely. Numeric ranges contain exactly the documented values in order, and functions documented to return a new array leave their input untouched.')
ST['C13']=(None,'A random integer drawn from an inclusive range whose ends are in order is always an integer inside the range and every value of the range, both ends included, is equally likely; a random element is an element of the array, a random float lies in [0,1), a random letter, digit string and colour has its documented alphabet and length. This holds for every value of the underlying random source and for both the fast and the secure variants. Random durations stay inside their range.')
ST['C14']=(None,'Writing an amount in Chinese capital words is unambiguous: different amounts give different words, the words follow the standard reading (unit and section characters, exactly one zero character for each inner run of zero digits that must be read, sign first), the "whole" suffix stands exactly on amounts that end at yuan or tenths, and values outside the supported size are rejected rather than misread. Grouping the digits of a number in plain decimal notation inserts separators only between groups counted from the decimal point, so that removing them gives the original number text back; converting to a finite number gives that number where there is one and the default for every other value, never an error. The text of a number reads back as that very number, negative zero included.')
ST['C15']=(None,'A cookie built from name, value and attributes contains each given attribute exactly once in the documented form and none that was not given; parsing a cookie header returns every name with its full value (the last one, if a name is repeated), including values that contain "=" or are quoted and whatever the name. Parsing a set-cookie text returns name, value and every attribute, flags included, and no attribute takes the place of name or value. Splitting a combined set-cookie header at its commas never cuts inside an attribute such as an expiry date, and splitting what was joined gives the parts back.')
ST['C16']=(None,'Copying a file, link or directory tree leaves at the target the same tree: same names, file contents and links (copied as links, not followed), with the source unchanged. With overwriting switched off nothing that already exists at the target, at any depth, is changed; with it on existing files are replaced. A failed copy never deletes or alters the source, copying a directory into itself is refused, and, as long as no link stands at the target where something is to be written, nothing outside the target path is created or changed.')
ST['C18']=(None,'Reading text line by line delivers every line once, in order, without its terminator, and says "done" exactly with the last one, for every mix of line endings, for strings and buffers, and for every way the stream cuts the content into chunks (also inside a line ending or a character). Reading a fragment returns exactly the requested inclusive byte range. Comparing two files answers "equal" exactly when their bytes are equal.')
ST['C19']=(None,'Listing a tree returns each entry that is not a directory exactly once with its path (limited to one level: the names of the direct entries), with links listed and not followed, Windows shortcuts replaced by what they lead to (once, also if they lead back) or left out if that cannot be found out, and fails if a directory cannot be read; finding directories by name searches downward and returns exactly the directories bearing one of the names that are not inside another match. Searching upwards for a directory or file tries the starting directory and each ancestor in order and returns the first match. The questions whether a path is a file or a directory follow links, the question whether it is a link answers for the entry itself, and mapping a file of one tree into another gives its place there.')
ST['C20']=('Killing a process tree signals every descendant exactly once','Killing a process also signals all of its descendants as listed by the system, each exactly once and with the requested signal, and reports completion exactly once after the last one. Processes that have already gone are skipped; any other failure is reported once as the error. An invalid process id signals nothing and is reported as an error.')
ST['C21']=(None,'Running a command passes each argument to the program verbatim, whatever characters it contains (spaces, quotes, shell metacharacters; line breaks excepted where the Windows shell is used), and settles exactly once with command, exit status, signal and the complete output of both streams, whatever way the output arrives in pieces. A command that cannot be started is reported as a failure.')
ST['C22']=(None,'Following redirects issues at most the allowed number of further requests, after which the redirect response itself is the outcome; each hop goes to the location the server named, resolved against the current address, and a location that is not a valid http address is reported as an error. Credentials (cookie, authorization, auth) are sent on only to the same host and stay removed once another host was visited; a post redirected by 301/302, or any request but a head redirected by 303, continues as a body-less get, and by 307/308 keeps method and body. The call settles exactly once, with the final response or the error, and the caller\'s options object is not changed.')
ST['C23']=(None,'The request sent has the method, path, query, headers and body asked for: query and form values of well-formed text decode to exactly the given values, the declared content length is the byte length of the body, and caller headers win over defaults; looking up hosts asks once for each, in order, and gives each exactly the addresses answered. The response body delivered is the decoded (decompressed) body whatever way it arrived in pieces. Every failure (network error, timeout, bad encoding) rejects the call exactly once with the connection closed.')
ST['C24']=(None,'A deep copy has the same structure, types, values and attribute flags as the original, including nested arrays, plain objects, dates, regular expressions, maps, sets, errors and binary data, and keeps shared references and cycles as sharing and cycles within the copy. No mutable object of the original is reachable from the copy, so changing either never shows in the other. Copying attributes onto another object copies each value of a source attribute the same way and, when asked to copy only what is lacking, leaves the attributes the target already has alone.')
ST['C25']=(None,'Listing keys or values at each level returns exactly the own properties that level names, and the attributes reported as lacking are exactly those that are no own property; deriving or deleting keys yields exactly the other properties; ordering the keys of plain objects and arrays changes nothing but order, at the requested depth and also for cyclic data. Writing a path of plain keys and indexes as text and reading it back gives the path, reading a path from an object gives the value found there, and reading through something missing gives nothing, or an error when asked for. Shallow equality holds exactly when both sides have the same keys with identical values, and no utility changes an argument it is not documented to change.')
ST['C26']=(None,'Converting to JSON and parsing from JSON yields exactly what the platform\'s JSON functions yield, with cycles through plain objects and arrays replaced by a mark naming the path they lead back to (or reported as errors, when asked for); it settles exactly once, and reports every failure (bigint, bad text, throwing callbacks) as a rejection carrying the cause, never as a synchronous throw. What is parsed from the conversion of JSON data is that data.')
ST['C27']=(None,'The byte length and byte array of a text are those of its UTF-8 encoding (a lone surrogate counting as the replacement character), including characters outside the basic plane, and the code point and character functions walk whole characters. Splitting by a byte limit yields non-empty pieces whose concatenation is the text, that never cut a character, are filled greedily, and stay within the limit unless a single character alone exceeds it. A byte count written in words uses the least unit whose rounded value stays below the base, for both bases.')
ST['C28']=(None,'Trimming removes exactly the characters of the selected classes (space, zero-width, space-like, control, and the extra characters given, each taken literally) from the selected side or everywhere and nothing else; removing blank space removes it at both ends and turns each inner blank into a space. Counting and searching functions (leading spaces or tabs, word start and end, starts-with, in-front-of, behind) agree with that definition for every position, and match the searched text literally, ignoring the case of ASCII letters when asked to.')
ST['C29']=(None,'Processing the text outside (or inside) of quotes and brackets hands every part to exactly one side, in order (an unclosed group and all behind it counting as outside): with an identity callback the text comes back unchanged, and the parts of the other side are passed through verbatim. The quote checkers answer the empty string exactly when every quote opened outside another is closed, honouring escapes and apostrophes within words, and otherwise the quote left open.')
ST['C30']=(None,'Encoding special characters as HTML entities (by name or decimal number) and decoding gives the text back, text without such characters is unchanged, and decoding decodes each known entity once, never the result of another decoding. A text turned into a pattern matches exactly itself. A list of replacement rules is applied one after the other, each to the result of the previous one.')
ST['C31']=(None,'Collecting all matches returns every match once, in order, as the platform\'s enumeration from the pattern\'s remembered position does, for global and non-global patterns, terminates for patterns that match the empty text, and does not disturb the remembered position; splitting at matches and enumerating them by position agree with it. The test-all and test-any helpers answer by the definition for every list of patterns whatever was matched before.')
ST['C32']=(None,'Styled text contains the given text unchanged between an opening code and its matching reset, and nested or combined styles open and close every attribute once (attributes sharing one reset end together). A progress bar with a positive total shows for every step the true count, total and percentage (rounded down), never exceeds its width, and announces completion exactly once, at the step that reaches the total. Cursor, erase and scroll sequences are those the standard assigns to the names, and messages show the given texts unchanged in the order given; a question is shown once and answered once with the first line typed, without its outer blanks, and then lets the terminal go.')
ST['C34']=('Path handling keeps the place a path names, and checks Windows paths','Normalising a path expands a leading home marker only, keeps the place the path names, leaves no redundant separator, dot or parent step, and is idempotent; unifying separators turns every backslash into a slash except in extended-length paths. A text is accepted as a Windows path exactly when it is a drive, or a dot form, followed by names behind single backslashes (none reserved, none with forbidden characters or outer blanks) within the length limit, in bounded time for every text, and as an extended-length path exactly when it bears the prefix before a drive and keeps within the longer limit.')
ST['C35']=(None,'The task list printed by the system is read back as exactly its tasks, with image name (whatever blanks it holds), process id, memory and session, in order, lines that are no task left out; searching it returns exactly the tasks of the image name, and ending a task answers true exactly when the command succeeded without complaint. Making a shortcut hands each setting given, or else its default, to the script in its own place, and is refused on other systems or for a missing source or folder unless forced; the language answers what the system prints, or null. The platform questions answer from the system\'s type and release (both generations of the Linux subsystem included), and opening something starts the program of the platform, or the one given, with exactly the arguments given.')
ST['C36']=(None,'Evaluating the source text written for a value gives an equal value, for every graph of primitives (signed zero, symbols and exotic strings included), boxed values, plain and prototype-less objects, arrays with and without holes, maps, sets, dates, patterns, errors, addresses and binary data; an object met again below itself is written as the circular mark and nothing else is. Objects that bring their own writer are written by it, and by their structure when it fails. The asynchronous form additionally writes the true state of every promise, with its value or reason, and the synchronous form never claims to know it.')
ST['C37']=(None,'The checks for version 6 addresses (plain, in brackets, and with a port), mail addresses, links and Chinese phone numbers accept exactly the texts of their documented grammar within the documented lengths, for the whole text and without ever throwing, and stricter phone levels accept only what looser ones accept. The script questions (contains Chinese, Japanese, CJK punctuation) answer true exactly when the text has a character of the documented ranges, characters outside the basic plane included.')
ST['C39']=(None,'Cutting a text into sentences neither loses, adds nor changes a character, except for the blanks behind a sentence at the place where the text is cut. A text made of whole sentences, English or Chinese, each closed by its mark (full stop, exclamation mark, question mark or semicolon), is cut behind every one of them whatever the sentences around it are and however many blanks separate them, but not inside quotes, back-ticks or brackets, not inside a number or a name with a dot, not behind a listed abbreviation of one word and, when ellipses are not to end a sentence, not behind an ellipsis.')
ST['C40']=(None,'Making a Chinese text neat adds and removes blanks and turns marks, and does nothing else: every word and every line break within stays, in its order, and there is one blank (or the blanks that were there) between Chinese and a Latin word or number next to each other, none was put next to Chinese punctuation, and none stands at either end. With the enhanced rules, blanks between two Chinese characters become one Chinese comma, wherever they are; a Latin mark that stands between Chinese, or behind Chinese at the end or before a blank (comma, exclamation mark, question mark, semicolon, tilde), becomes the Chinese mark without blanks around it, and a Latin full stop does so only between Chinese; operators (plus, minus, equals, caret, ampersand, bar) next to Chinese get a blank on either side, a pair of Latin brackets gets one towards Chinese and Latin words outside and none inside; middle dots of all kinds become one kind without blanks. Chinese includes kana, radicals and the other ideographic blocks in both modes, and full-width forms become half-width ones, except for the common Chinese marks and only if not switched off; a neat text stays as it is.')
ST['C41']=(None,'Writing a file leaves exactly the data at its path: texts in the chosen encoding (UTF-8 by default), bytes as they are, objects and lists, empty ones included, as their JSON text unless that is switched off; former content is replaced, kept in front, written over or a reason to refuse as the flag says, and reading the file in the same encoding gives the text back, changing nothing. Missing folders on the way are made unless that is switched off; a new file gets the permissions asked for (0o755 by default, less the process mask), an existing one keeps its own. When it fails, whatever stood at the path is as it was, and data without a JSON form is refused before even a folder is made.')
import re as _re
for _x in P:
    if _x['id'] in ST:
        t,s=ST[_x['id']]
        if t: _x['title']=t
        _x['statement']=s
    if _x['id']=='C11': _x['anchors']['files']=['packages/array/src/convert/toTree.ts']
FSF={'C16':['copy','copyFile','copySymbolicLink','symbolicLink','mkdir','writeFile'],'C17':['deleteOne','clearDir'],'C18':['readlineStream','readline','readlineFromCode','readFragment','diffFile','readFile','stripBOM'],'C19':['fileList','findDir','isDir','isFile','isSymbolicLink','destPath','readLnk']}
for _x in P:
    if _x['id'] in FSF:
        _x['anchors']['files']=['packages/fs/src/%s.ts'%n for n in FSF[_x['id']]]
        for m in _x['anchors']['mechanism']: m['where']=_x['anchors']['files'][0]
