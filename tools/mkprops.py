#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because the file is long)."""
import json, os, re
T = "src/token.cpp"; S = "src/simfil.cpp"; F = "src/function.cpp"; P = "src/parser.cpp"
OP = "include/simfil/operator.h"; V = "include/simfil/value.h"
M = "src/model/model.cpp"; N = "src/model/nodes.cpp"; A = "include/simfil/model/arena.h"
SP = "src/model/string-pool.cpp"
props = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

prop("C01", "Integer literals denote exactly the integer written",
 "Every decimal, hexadecimal (0x) or binary (0b) integer literal whose value is below 2^63 tokenizes to exactly one integer token with exactly that value, whatever its length, leading zeros, letter case of its digits or position in the expression. A literal of 2^63 or more, or one with a digit that does not belong to its base, is rejected with an error and never silently altered.",
 ["inputs"], "all integers of 0 to 63 bits in three notations, all longer or malformed digit strings",
 "The tests read eight small literals; wide values, boundaries and overflow are not reached.",
 [T, "include/simfil/token.h"], [("scanNumber", T)], ["token stream of tokenize()"])
prop("C02", "Float literals denote the decimal number written",
 "A float literal (with a decimal point on either side of the digits, and/or a scientific suffix e<n> / e-<n>) tokenizes to one float token whose value is the double nearest to the decimal number written (infinity when it is too large, zero when it is too small), so that comparing a field with the number it holds is true. Letters or a second decimal point directly after a literal with a decimal point are rejected.",
 ["inputs"], "all digit strings with decimal point and/or exponent",
 "The tests compare about fifteen short literals; long digit strings, large exponents and their combination are not reached.",
 [T], [("scanNumber / parseSciSuffix", T)], ["token stream of tokenize()"])
prop("C03", "Every string is expressible as a literal and reads back exactly",
 "For every text and every quoting style ('...', \"...\", raw r'...' and regular expression re'...'), a literal written by the documented escape rules tokenizes to exactly one string (or regexp) token carrying exactly that text: backslash escapes resolve in plain literals, while raw and regexp literals keep every backslash except the one escaping the quote character. A literal without its closing quote is rejected.",
 ["inputs"], "all byte strings without restriction on quotes, backslashes, control or non-ASCII characters; all cut points",
 "The tests use a dozen short ASCII literals.",
 [T], [("scanStringLiteral", T)], ["token stream of tokenize()"])
prop("C04", "Identifiers and keywords are recognised exactly",
 "Every name, with characters that are not legal in an identifier escaped by a backslash, tokenizes to one word token carrying exactly that name in its original letter case. A word is read as a keyword (and, or, not, typeof, as, true, false, null, _) exactly if its text equals the keyword ignoring letter case; names that merely contain, extend or shorten a keyword stay names.",
 ["inputs"], "all names over all bytes, all letter cases of all keywords",
 "The tests use six names and one keyword in four spellings.",
 [T], [("scanWord", T)], ["token stream of tokenize()"])
prop("C05", "White space between tokens never changes the token stream",
 "A sequence of tokens written with any amount and kind of white space between them, or with none where the text stays unambiguous, tokenizes to exactly that sequence followed by one end marker. Every documented operator spelling yields its own token, and adjacent operator characters are split by longest match.",
 ["inputs"], "all token sequences and spacings; all runs of operator characters",
 "The tests tokenize three multi-token expressions with single spaces and check 8 of 31 operator spellings.",
 [T], [("tokenize / scanSyntax table", T)], ["token stream of tokenize()"])
prop("C06", "Token locations delimit the source text of their token",
 "Every token reports the begin and end offset of the characters it was read from (for prefixed r/re strings, from the quote on): offsets are increasing, never overlap, leave only white space or the string prefix between tokens, and the delimited text alone reads back as the same token.",
 ["inputs"], "all token sequences and spacings",
 "One test checks the locations of one expression.",
 [T], [("Scanner::pos", T)], ["Token::begin / Token::end"])
prop("C07", "Tokenizing arbitrary bytes is total and exact",
 "For every byte string the tokenizer terminates, reads no memory outside the string, and either returns tokens for the whole input ending in exactly one end marker or raises an error; it never drops part of the input. Which of the two happens, and the tokens returned, agree with the lexical grammar of the language.",
 ["inputs"], "all byte strings, including NUL bytes, non-ASCII and truncated literals",
 "The tests feed a handful of malformed literals.",
 [T], [("tokenize", T), ("Scanner bounds checks", T)], ["tokens or exception of tokenize()"])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")) else None

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in sorted(props, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        n = len(re.findall(r"[.](?:\s+[A-Z'0-9*]|$)", p["statement"]))
        if n > 3: print(p["id"], n, "sentences")
        f.write(json.dumps(p) + "\n")
print(len(props), "properties")
