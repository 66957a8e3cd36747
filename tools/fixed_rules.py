RULES[:0]=[(r'^writeFile|writeFile writes','C41')]
RULES[:0]=[(r'refuses a pad position|refuses the dimensions','C38')]
RULES[:0]=[(r'\bis(Ip|Email|URI)\b','C37'),(r'isWindows|home marker|[wW]indowsPath','C34'),(r'windowsLocal|Shortcut|isWSL|WindowsTask|windowsTask|open finds','C35')]
RULES.append((r'fromCascadeKeys|toCascadeKeys|deleteAttrs|sortKeys|shallowEqual','C25'))
RULES.append((r'\bstringify|parseJson|JSON','C26'))
RULES.append((r'bytesArray|splitByBytes|bytes','C27'))
RULES.append((r'trim|behind|inFrontOf|starts|subSpaces|words?\b|spaces?\b','C28'))
RULES.append((r'quote|bindInside|bindOutside','C29'))
RULES.append((r'[eE]ntit|multiReplace|escape','C30'))
RULES.append((r'matchSplit|execAll|testEvery|testSome|regexp','C31'))
RULES.append((r'ansi|progress|term|Progress|rapid blinking|cursorOn|format shows','C32'))
RULES.append((r'\bis[A-Z]\w*|assert|predicates','C33'))
RULES.append((r'path|normalize|[sS]eparator','C34'))
RULES.append((r'[tT]ask','C35'))
RULES[:0]=[(r'quoteClosed','C29'),(r'execAll','C31')]
RULES[:0]=[(r'toSentences','C39')]
RULES[:0]=[(r'corrector','C40')]
RULES[:0]=[(r'lackAttrs','C25'),(r'toFiniteNumber','C14'),(r'queryDNS','C23')]
RULES[:0]=[(r'\bonce runs|toggle switches','C07'),(r'toLowerCaseKey','C25'),(r'toObject|maxRecursionDepth','C12'),(r'[cC]ookie','C15'),(r'fileList|findDir|readLnk','C19')]
