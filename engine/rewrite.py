"""Lexical rewriting of C++ sources: `double` -> `Sym`, floating literals -> Sym(..), Eigen ...d typedefs -> ..._S.

Comments, strings, character literals and preprocessor directives (other than macro bodies) are left as they are."""
import os, re

EIGEN_D = re.compile(r'^(Vector[234X]|RowVector[234X]|Matrix[234X]|Matrix[234]X|MatrixX[234]|Array[234X]|Array22|Array33|Array44|ArrayXX|AngleAxis|Quaternion|'
                     r'Isometry[23]|Affine[23]|Translation[23])d$')
TOKEN = re.compile(r'''
   (?P<comment>//[^\n]*|/\*.*?\*/)
 | (?P<raw>R"(?P<delim>[^()\s\\]{0,16})\(.*?\)(?P=delim)")
 | (?P<string>(?:u8|[uUL])?"(?:\\.|[^"\\\n])*")
 | (?P<char>(?:u8|[uUL])?'(?:\\.|[^'\\\n])+')
 | (?P<number>(?:0[xX][0-9a-fA-F'.]+(?:[pP][+-]?\d+)?|(?:\d[\d']*\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)[a-zA-Z_]*)
 | (?P<ident>[A-Za-z_]\w*)
 | (?P<ws>\s+)
 | (?P<op>::|->|.)
''', re.X | re.S)

def is_float(t):
    if t[:2] in ('0x', '0X'):
        return 'p' in t or 'P' in t
    return '.' in t or re.search(r'\d[eE][+-]?\d', t) is not None

def rewrite(text, filename='', chrono=True):
    out = []
    toks = [(m.lastgroup if m.lastgroup != 'delim' else 'raw', m.group(0)) for m in TOKEN.finditer(text)]
    i = 0; bol = True
    n = len(toks)
    def nxt(j):
        j += 1
        while j < n and toks[j][0] in ('ws', 'comment'): j += 1
        return j
    while i < n:
        k, t = toks[i]
        if k == 'op' and t == '#' and bol:
            # directive: copy up to end of line, except that a #define body is rewritten
            j = i; line = []
            while j < n:
                if toks[j][0] == 'ws' and '\n' in toks[j][1] and not (j and toks[j - 1][1] == '\\'):
                    break
                line.append(toks[j]); j += 1
            txt = ''.join(x for _, x in line)
            m = re.match(r'#\s*define\s+\w+(\([^)]*\))?', txt)
            if m:
                out.append(m.group(0)); out.append(rewrite(txt[m.end():], filename, chrono))
            else:
                out.append(txt)
            i = j; continue
        if k == 'ident':
            if t == 'double' or (t == 'float'):
                # "long double" -> Sym as well
                if t == 'double':
                    p = len(out) - 1
                    while p >= 0 and out[p].isspace(): p -= 1
                    if p >= 0 and out[p] == 'long': out[p] = ''
                out.append('Sym'); bol = False; i += 1; continue
            m = EIGEN_D.match(t)
            if m:
                out.append(m.group(1) + '_S'); bol = False; i += 1; continue
            if t == 'Rotation2Dd':
                out.append('Rotation2D_S'); bol = False; i += 1; continue
            if chrono and t == 'chrono':
                # std::chrono -> symchrono
                p = len(out) - 1
                while p >= 0 and out[p].isspace(): p -= 1
                if p >= 1 and out[p] == '::':
                    q = p - 1
                    while q >= 0 and out[q].isspace(): q -= 1
                    if q >= 0 and out[q] == 'std':
                        out[q] = ''; out[p] = '::'
                        out.append('symchrono'); bol = False; i += 1; continue
                out.append('symchrono'); bol = False; i += 1; continue
        if k == 'number' and is_float(t):
            lit = t.rstrip('fFlL') if t[:2] not in ('0x', '0X') else t
            out.append('Sym(' + lit + ')'); bol = False; i += 1; continue
        out.append(t)
        if k == 'ws':
            if '\n' in t: bol = True
        elif k != 'comment':
            bol = False
        i += 1
    return ''.join(out)

def rewrite_tree(src, dst):
    """Rewrites every C++ file below src into dst (same layout)."""
    files = []
    for d, _, fs in os.walk(src):
        for f in sorted(fs):
            if not f.endswith(('.hpp', '.h', '.cpp', '.cc', '.hxx', '.ipp', '.inl')): continue
            p = os.path.join(d, f); q = os.path.join(dst, os.path.relpath(p, src))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(p, encoding='utf-8', errors='surrogateescape') as fh: t = fh.read()
            with open(q, 'w', encoding='utf-8', errors='surrogateescape') as fh: fh.write(rewrite(t, p))
            files.append(q)
    return files

if __name__ == '__main__':
    import sys
    print(len(rewrite_tree(sys.argv[1], sys.argv[2])))
