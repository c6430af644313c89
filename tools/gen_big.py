#!/usr/bin/env python3
"""Writes harness/src/big_names.rs: adversarial tags for C07's large registries."""
import itertools, os
names = []
def add(*xs):
    for x in xs:
        if x not in names:
            names.append(x)
for n in range(1, 5):
    add(*("".join(t) for t in itertools.product("ab", repeat=n)))
add(*("x" * n for n in list(range(1, 18)) + [31, 32, 33, 63, 64, 65, 127, 128, 255, 256]))
add("Alpha", "ALPHA", "alpha", "aLPHA", "alphA", "Alpha1", "Alphaa", "Alph", "lpha", "Beta",
    " Alpha", "Alpha ", " Alpha ", "Al pha", "Alpha\t", "\nAlpha", "Alpha\r\n", "\u00a0Alpha")
add("\u00e9", "e\u0301", "\ufb00", "ff", "\u212b", "\u00c5", "A\u030a", "\u00df", "SS", "ss", "\u0131", "i", "I", "\u0130",
    "\ufeffAlpha", "Alpha\u200b", "Alpha\x00", "\x00", "\x00\x00", "\U0001F600", "\U0001F600\U0001F600", "\U0010ffff", "\ud7ff", "\ue000",
    "\u03c3", "\u03c2", "\u03a3", "\u0410", "A\u200d")
add("0", "1", "00", "01", "-1", "1.0", "0x1", "true", "null", "None", "()", "{}", "[]", "\"", "\\", "\\n", "'", "`", "``", "$", "%s", "{0}", "*", ".", "..")
add("a::b", "::a", "a::", "crate::a", "a.b", "a/b", "a<b>", "a_b", "a-b", "dyn Alpha", "Box<Alpha>", "r#a", "type", "value", "tag", "content", "t", "c")
add("P" * 100 + "a", "P" * 100 + "b", "a" + "P" * 100, "b" + "P" * 100, "P" * 100)
add(*("T%03d" % i for i in range(340)))
# One spelling each of what has many.
add("snake_case_name", "kebab-case-word", "camelCaseThing", "PascalCaseThing", "SCREAMING_CASE_IT", "dotted.path.to", "slash/ed/path",
    "path::to::Shape", "with some spaces", "percent%41", "&lt;entity&gt;", "back\\nslash", "\\u0041lpha", "Generic<u8>", "<Qualified as Tr>",
    "(u8, u16)", "[u8; 3]", "&'static str", "r#match", "v1.2.3", "#7", "007", "1e3", "0b11", "True", "NULL", "ns:Name", "ns|Name", "a+b",
    "caf\u00e9s", "Stra\u00dfen", "\uff21lpha", "\u212aelvin", "x\u00b2", "soft\u00adhyphen", "en\u2013dash", "quote\u2019s", "\u0130stanbul")
def esc(s):
    return '"' + "".join(c if c.isalnum() and ord(c) < 128 else "\\u{%x}" % ord(c) for c in s) + '"'
names.sort(key=lambda s: (len(s) * 7919 + sum(map(ord, s)) * 104729) % 1009)
out = ["// Written by tools/gen_big.py.", "pub const N: usize = %d;" % len(names), "macro_rules! big_names {", "    ($m:ident $($x:tt)*) => {", "        $m! { $($x)*"]
for i, n in enumerate(names):
    out.append("            %d %s" % (i, esc(n)))
out += ["        }", "    };", "}", ""]
open(os.path.join(os.path.dirname(__file__), "../harness/src/big_names.rs"), "w").write("\n".join(out))
print(len(names))
