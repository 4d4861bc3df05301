"""Signatures of the library functions, for generating plausible (and implausible) argument lists.

Codes: a array, o object, s string, n number, i index, d datetime, r regex, f function, b boolean, v any; ? optional,
* repeated.
"""

from . import values as V

SIGNATURES = {
    'arrayCopy': 'a', 'arrayDelete': 'ai', 'arrayExtend': 'aa', 'arrayGet': 'ai', 'arrayIndexOf': 'avi?', 'arrayJoin': 'as',
    'arrayLastIndexOf': 'avi?', 'arrayLength': 'a', 'arrayNew': 'v*', 'arrayNewSize': 'i?v?', 'arrayPop': 'a', 'arrayPush': 'av*',
    'arraySet': 'aiv', 'arrayShift': 'a', 'arraySlice': 'ai?i?', 'arraySort': 'af?',
    'dataAggregate': 'to', 'dataCalculatedField': 'tsso?', 'dataFilter': 'tso?', 'dataJoin': 'ttss?b?o?', 'dataParseCSV': 's*',
    'dataSort': 'ta', 'dataTop': 'tia?', 'dataValidate': 'tb?',
    'datetimeDay': 'd', 'datetimeHour': 'd', 'datetimeISOFormat': 'db?', 'datetimeISOParse': 's', 'datetimeMillisecond': 'd',
    'datetimeMinute': 'd', 'datetimeMonth': 'd', 'datetimeNew': 'yiii?i?i?i?', 'datetimeNow': '', 'datetimeSecond': 'd',
    'datetimeToday': '', 'datetimeYear': 'd', 'jsonParse': 's', 'jsonStringify': 'vi?',
    'mathAbs': 'n', 'mathAcos': 'n', 'mathAsin': 'n', 'mathAtan': 'n', 'mathAtan2': 'nn', 'mathCeil': 'n', 'mathCos': 'n',
    'mathFloor': 'n', 'mathLn': 'n', 'mathLog': 'nn?', 'mathMax': 'v*', 'mathMin': 'v*', 'mathPi': '', 'mathRandom': '',
    'mathRound': 'ni?', 'mathSign': 'n', 'mathSin': 'n', 'mathSqrt': 'n', 'mathTan': 'n',
    'numberParseFloat': 's', 'numberParseInt': 'si?', 'numberToFixed': 'ni?b?',
    'objectAssign': 'oo', 'objectCopy': 'o', 'objectDelete': 'os', 'objectGet': 'osv?', 'objectHas': 'os', 'objectKeys': 'o',
    'objectNew': 'svsv', 'objectSet': 'osv',
    'regexEscape': 's', 'regexMatch': 'rs', 'regexMatchAll': 'rs', 'regexNew': 'ss?', 'regexReplace': 'rss', 'regexSplit': 'rs',
    'schemaParse': 's*', 'schemaParseEx': 'so?s?', 'schemaTypeModel': '', 'schemaValidate': 'osv', 'schemaValidateTypeModel': 'o',
    'stringCharCodeAt': 'si', 'stringEndsWith': 'ss', 'stringFromCharCode': 'i*', 'stringIndexOf': 'ssi?', 'stringLastIndexOf': 'ssi?',
    'stringLength': 's', 'stringLower': 's', 'stringNew': 'v', 'stringRepeat': 'si', 'stringReplace': 'sss', 'stringSlice': 'sii?',
    'stringSplit': 'ss', 'stringStartsWith': 'ss', 'stringTrim': 's', 'stringUpper': 's',
    'systemBoolean': 'v', 'systemCompare': 'vv', 'systemFetch': 'v', 'systemGlobalGet': 'sv?', 'systemGlobalSet': 'sv', 'systemIs': 'vv',
    'systemLog': 'v', 'systemLogDebug': 'v', 'systemPartial': 'fv*', 'systemType': 'v', 'urlEncode': 's', 'urlEncodeComponent': 's'
}

# Functions whose number argument must stay small (they build something of that size)
SIZED = {'arrayNewSize', 'stringRepeat', 'numberToFixed', 'mathRound', 'jsonStringify'}
SIZE_LIMIT = 300

WORDS = ['', 'a', 'b', 'abc', 'abcabc', 'a,b', '2024-02-29', '2024-02-30', '2024-01-02T03:04:05Z', '12', '1.5', '-3', 'ff', '[1,2.0]', '{"a":1}', '{', 'a == 1',
         'x +', 'a', '(', 'a+', '[', ' x ', 'É', 'g1']


def parse(sig):
    out = []
    i = 0
    while i < len(sig):
        mod = sig[i + 1] if i + 1 < len(sig) and sig[i + 1] in '?*' else ''
        out.append((sig[i], mod))
        i += 1 + len(mod)
    return out


def table(c):
    return [{k: V.scalar(c) for k in ('a', 'b', 'c') if c.draw(4)} for _ in range(c.draw(4))]


def arg(c, code, name):
    if code == 'v':
        return V.value(c, 2)
    if code == 'a':
        return [V.value(c, 1) for _ in range(c.draw(5))]
    if code == 't':
        return table(c)
    if code == 'o':
        if name == 'dataAggregate':
            return {'categories': ['a'], 'measures': [{'field': 'b', 'function': c.pick(['count', 'sum', 'max', 'min', 'average', 'stddev'])}]}
        return {k: V.value(c, 1) for k in ('a', 'b', 'c') if c.draw(2)}
    if code == 's':
        return c.pick(WORDS) if c.draw(3) else V.text(c)
    if code == 'n':
        return V.number(c)
    if code == 'i':
        v = c.int(0, 6) if c.draw(4) else (c.int(-3, 40) if name in SIZED else c.pick([-1, 10, 16, 36, 65, 1000, 0.5, 1e6]))
        return float(v) if c.draw(2) else v
    if code == 'y':
        return float(c.int(1900, 2100)) if c.draw(4) else c.pick([99, 100, 9999, 10000, 1.5])
    if code == 'd':
        return V.moment(c)
    if code == 'r':
        return c.pick(V.REGEXES)
    if code == 'f':
        return c.pick([V.FN1, V.FN2])
    if code == 'b':
        return bool(c.draw(2)) if c.draw(4) else V.scalar(c)
    raise AssertionError(code)


def arguments(c, name, noise=True):
    """An argument list: well-typed, or (with noise) with wrong types, missing or surplus arguments."""
    out = []
    for code, mod in parse(SIGNATURES[name]):
        if mod == '?':
            if not c.draw(3):
                break
            out.append(arg(c, code, name))
        elif mod == '*':
            out.extend(arg(c, code, name) for _ in range(c.draw(4)))
        else:
            out.append(arg(c, code, name))
    if noise and c.draw(3) == 2:
        k = c.draw(3)
        if k == 0 and out:
            i = c.draw(len(out))
            v = c.pick(V.SHORT)
            out[i] = v
        elif k == 1 and out:
            out.pop()
        else:
            out.append(c.pick(V.SHORT))
    if name in SIZED:
        big = {'numberToFixed': 1, 'mathRound': 1, 'jsonStringify': 1, 'stringRepeat': 1, 'arrayNewSize': 0}[name]
        for i in range(big, len(out)):
            if isinstance(out[i], (int, float)) and not isinstance(out[i], bool) and abs(out[i]) > SIZE_LIMIT:
                out[i] = type(out[i])(SIZE_LIMIT)
    return out
