"""Generate mutants: list of (file, line, old, new)."""
import re, sys, json, os, random
repo = "/repo"
files = sys.argv[2:]
out = []
for f in files:
    lines = open(repo + "/" + f, encoding="utf-8").read().split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "/*", "*", "#")) or "assert" in s: continue
        code = l.split("//")[0]
        def add(new, kind):
            if new != l: out.append((f, i, new, kind))
        if re.match(r"\s*case \w+:\s*$", code): add("", "delcase")
        if re.match(r"\s*UTH_\w+,\s*$", code): add("", "delelem")
        if re.match(r"\s*\{ .* \},\s*(//.*)?$", l) and "INVALID" not in l:
            # table row: replace the value by a neighbour's
            m = re.search(r",\s*([^,{}]+?)\s*\}", code)
            for j in (i - 1, i + 1):
                if 0 <= j < len(lines):
                    m2 = re.search(r",\s*([^,{}]+?)\s*\}", lines[j].split("//")[0])
                    if m and m2 and m2.group(1) != m.group(1) and lines[j].strip().startswith("{"):
                        add(l[:m.start(1)] + m2.group(1) + l[m.end(1):], "table"); break
        for a, b in (("&&", "||"), ("||", "&&"), ("==", "!="), ("!=", "=="), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), ("+ 1", "+ 2"), ("+ 2", "+ 1"), ("+ 2", "+ 3"), ("+ 3", "+ 2"), ("- 1", "- 0"), ("true", "false"), ("false", "true"), ("++", "--")):
            k = 0
            while True:
                k = code.find(a, k)
                if k < 0: break
                if not (a == "++" and "++" in code and "for" in code) :
                    add(code[:k] + b + code[k + len(a):], a + "->" + b)
                k += len(a)
        m = re.match(r"(\s*)(if|while) \((.*)\)( \{)?\s*$", code)
        if m and m.group(2) == "if":
            add("%sif (!(%s))%s" % (m.group(1), m.group(3), m.group(4) or ""), "negif")
        m = re.match(r"(\s*)(\S.*;)\s*$", code)
        if m and (re.match(r"\s*(return|break|continue|goto)\b", code) or re.search(r"\(|=|\+\+", code)) \
           and not re.match(r"\s*(auto|int|const|string|bool|static|char|case|using|typedef|size_t)\b", code) and code.count("(") == code.count(")"):
            if not re.match(r"\s*[\w\)\}\"',].*\)\)+;$", code) or "(" in code:
                add(m.group(1) + ";", "delstmt")
        for a, b in (("EVowel::AUU", "EVowel::AU"), ("EVowel::A,", "EVowel::AA,"), ("EVowel::I,", "EVowel::UE,"), ("EInitConsClass::LOWS", "firstConsClass"), ("EVowel::UE\b", "EVowel::I"), ("ETone::SAMAN", "ETone::EK"), ("UTH_SARA_I ", "UTH_SARA_II "), ("UTH_SARA_U ", "UTH_SARA_UU "), ("UTH_RO_RUA", "UTH_LO_LING"), ("Complex", "Simple"), ("state.stopPos", "u16word.size()"), ("stopPos", "(int) u16word.size()")):
            if a in code: add(code.replace(a, b, 1), a + "->" + b)
        m = re.match(r"\s*(&&|\|\|) (.*?)(\)*\s*\{?)\s*$", code)
json.dump(out, open(sys.argv[1], "w"))
print(len(out))
