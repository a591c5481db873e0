"""Parser for GCC RTL dumps (-fdump-rtl-vregs) and the constant pool of the
matching assembly output."""
import re

TOK = re.compile(r'"(?:[^"\\]|\\.)*"|<[^<>\n]*>|[()]|\[\n|\[\]|\[(?:[^\[\]\n]|\[(?:[^\[\]\n]|\[[^\[\]\n]*\])*\])*\]|\]|[^\s()\[\]"<>]+')
# "<...>" covers <function_decl 0x.. name>; "[ ... ]" on one line is an annotation

HEAD = re.compile(r';; Function .*?\((\S+), funcdef_no')
INSN = re.compile(r'^\((insn|jump_insn|call_insn|code_label|note|barrier|jump_table_data)(?:/\S+)* (\d+) (\d+) (\d+)', re.M)
NOTE5 = re.compile(r'\n     (?:\((?:expr_list|nil|int_list|insn_list)).*', re.S)

class Insn:
    __slots__ = ('kind', 'uid', 'bb', 'pat', 'loc', 'name', 'equal', 'sib')

class Func:
    def __init__(self, name):
        self.name = name
        self.text = None
        self._blocks = None
    @property
    def insns(self):
        if self._blocks is None:
            self._blocks = parse_body(self.text)
            self.text = None
        return self._blocks

class ParseError(Exception): pass

def split_functions(text):
    """mangled name -> Func, in dump order"""
    out = {}
    pos = [(m.start(), m.end(), m.group(1)) for m in HEAD.finditer(text)]
    for i, (s, e, name) in enumerate(pos):
        end = pos[i + 1][0] if i + 1 < len(pos) else len(text)
        nl = text.index('\n', e)
        name = name.rstrip(',')
        f = Func(name)
        f.text = text[nl:end]
        out[name] = f
    return out

LCNOTE = re.compile(r'^\(insn [^\n]*\(set \((?:reg|subreg)[^\n]*\n\s+\(mem/u/c:\w+ \(symbol_ref/u:DI \("\*(\.LC\d+)"\)[^+\n]*\n\s+\(expr_list:REG_EQUAL (?=\(const_)', re.M)
def pool_notes(funcs):
    """constant-pool label -> text of its value, from the REG_EQUAL notes of plain loads"""
    out = {}
    for f in funcs.values():
        if f.text is None: continue
        for m in LCNOTE.finditer(f.text):
            if m.group(1) not in out: out[m.group(1)] = f.text[m.end():m.end() + 20000]
    return out

def parse_body(text):
    res = []
    ms = list(INSN.finditer(text))
    for i, m in enumerate(ms):
        body = text[m.start():ms[i + 1].start() if i + 1 < len(ms) else len(text)]
        kind = m.group(1)
        ins = Insn()
        ins.kind = kind; ins.uid = int(m.group(2)); ins.pat = None; ins.equal = None; ins.loc = ''; ins.bb = None; ins.name = ''
        ins.sib = kind == 'call_insn' and m.group(0).startswith('(call_insn/j')
        rest = body[m.end() - m.start():]
        if kind == 'note':
            k = re.search(r'NOTE_INSN_BASIC_BLOCK', rest)
            if k:
                b = re.search(r'\[bb (\d+)\]', rest)
                ins.bb = int(b.group(1))
            elif 'NOTE_INSN_DELETED_LABEL' in rest:
                ins.kind = 'code_label'
            else:
                continue
        elif kind in ('code_label', 'barrier'):
            pass
        elif kind == 'jump_table_data':
            ins.pat = parse_expr(rest)
        else:
            full = rest
            rest = NOTE5.sub('', rest)
            ins.pat = parse_expr(rest)
            if 'REG_EQUAL' in full and '("*.LC' in full:
                try: ins.equal = parse_expr(full[full.index('(', full.index('REG_EQUAL')):])
                except (ValueError, IndexError, ParseError): pass
            k = re.search(r'"([^"\n]*)":(\d+):(\d+)[^{]*\{([^}]*)\}', rest[-400:])
            if k:
                ins.loc = k.group(1) + ':' + k.group(2)
                ins.name = k.group(4)
            else:
                k = re.search(r'\{([^}]*)\}', rest[-200:])
                ins.name = k.group(1) if k else ''
        res.append(ins)
    return res

def parse_expr(s):
    i = s.index('(')
    toks = TOK.findall(s, i)
    e, _ = _parse(toks, 0)
    return e

MEMATTR = re.compile(r'(?: S(\d+))?(?: A(\d+))?(?: AS\d+)?\]$')
INT = re.compile(r'-?\d+$')

def _parse(toks, i):
    """parse one '(' ... ')' form; returns (node, next)"""
    if toks[i] != '(':
        raise ParseError('expected ( got %r' % toks[i:i + 5])
    i += 1
    head = toks[i]; i += 1
    if head == 'nil' and toks[i] == ')':
        return None, i + 1
    # split code/flags:mode
    k = head.find(':')
    mode = None
    if k >= 0:
        mode = head[k + 1:]; head = head[:k]
    sl = head.find('/')
    if sl >= 0:
        head = head[:sl]
    if ':' in (mode or ''):
        mode = mode.split(':')[-1]
    if mode and '/' in mode: mode = mode.split('/')[0]
    if head == 'reg':
        n = None
        while toks[i] != ')':
            if n is None and INT.match(toks[i]): n = int(toks[i])
            i += 1
        return ('reg', mode, n), i + 1
    if head == 'const_int':
        n = int(toks[i])
        while toks[i] != ')': i += 1
        return ('const_int', None, n), i + 1
    if head in ('const_double',):
        ann = None; first = None
        while toks[i] != ')':
            if first is None: first = toks[i]
            if toks[i].startswith('['): ann = toks[i][1:-1]
            i += 1
        return ('const_double', mode, ann, first), i + 1
    if head == 'const_wide_int':
        v = toks[i]
        while toks[i] != ')': i += 1
        return ('const_wide_int', None, int(v, 16)), i + 1
    if head == 'mem':
        addr, i = _parse(toks, i)
        size = align = None
        while toks[i] != ')':
            m = MEMATTR.search(toks[i])
            if m:
                if m.group(1): size = int(m.group(1))
                if m.group(2): align = int(m.group(2))
            i += 1
        return ('mem', mode, addr, size, align or 8), i + 1
    if head == 'symbol_ref':
        name = None
        while toks[i] != ')':
            if toks[i] == '(':
                i += 1
                name = toks[i].strip('"'); i += 1
            i += 1
        return ('symbol_ref', mode, name), i + 1
    args = []
    while True:
        t = toks[i]
        if t == ')':
            return tuple([head, mode] + args), i + 1
        if t == '(':
            e, i = _parse(toks, i)
            args.append(e)
        elif t == '[\n' or t == '[]':
            i += 1
            vec = []
            if t == '[\n':
                while toks[i] != ']':
                    if toks[i] == '(':
                        e, i = _parse(toks, i)
                        vec.append(e)
                    elif toks[i] == 'repeated':
                        n = int(toks[i + 1][1:])
                        vec.extend([vec[-1]] * (n - 1))
                        i += 2
                    else:
                        raise ParseError('in vec: %r' % toks[i:i + 5])
                i += 1
            args.append(vec)
        elif t[0] == '[':
            i += 1          # annotation
        elif t[0] == '<':
            i += 1
        elif t[0] == '"':
            args.append(('str', t[1:-1])); i += 1
        elif INT.match(t):
            args.append(int(t)); i += 1
        else:
            args.append(t); i += 1
    raise ParseError('eof')

# ------------------------------------------------------------------ .s data
def _strbytes(s):
    out = bytearray(); i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            i += 1; c = s[i]
            if c in '01234567':
                m = re.match(r'[0-7]{1,3}', s[i:])
                out.append(int(m.group(0), 8) & 255); i += len(m.group(0)); continue
            out.append({'n': 10, 't': 9, 'r': 13, 'b': 8, 'f': 12, '\\': 92, '"': 34}.get(c, ord(c)))
        else:
            out.append(ord(c))
        i += 1
    return bytes(out)

LBL = re.compile(r'^(\S+):\s*$')
DIR = re.compile(r'^\s+\.(byte|value|word|short|long|int|quad|zero|string|ascii|octa|set|align|section|text|data|bss|comm|p2align)\b\s*(.*)$')

def parse_asm_data(text):
    """label -> bytes (as far as known) for data labels; aliases resolved.
    Entries that are symbolic are returned in `syms`: label -> {off: expr}."""
    data = {}; alias = {}; syms = {}
    cur = []
    for line in text.split('\n'):
        m = LBL.match(line)
        if m:
            n = m.group(1)
            buf = bytearray()
            data[n] = buf
            cur = [c for c in cur if len(data[c]) > 0 or True] if not n.startswith('.LF') else cur
            # a new label starts its own buffer; earlier labels keep receiving bytes
            cur.append(n)
            if len(cur) > 4: cur = cur[-4:]
            continue
        m = DIR.match(line)
        if not m:
            if line.startswith('\t') and not line.startswith('\t.'):
                cur = []       # instruction
            continue
        d, arg = m.group(1), m.group(2)
        if d == 'set':
            a, b = [x.strip() for x in arg.split(',', 1)]
            mm = re.match(r'^([.\w$]+)(?:\+(\d+))?$', b)
            if mm: alias[a] = (mm.group(1), int(mm.group(2) or 0))
            continue
        if d in ('section', 'text', 'data', 'bss'):
            cur = []; continue
        size = {'byte': 1, 'value': 2, 'word': 2, 'short': 2, 'long': 4, 'int': 4, 'quad': 8, 'octa': 16}.get(d)
        chunk = b''
        if size:
            for x in arg.split(','):
                x = x.strip()
                try:
                    chunk += (int(x, 0) & ((1 << 8 * size) - 1)).to_bytes(size, 'little')
                except ValueError:
                    for c in cur: syms.setdefault(c, {})[len(data[c])] = x
                    chunk += b'\0' * size
        elif d == 'zero':
            try: chunk = b'\0' * int(arg.split(',')[0])
            except ValueError: pass
        elif d in ('string', 'ascii'):
            mm = re.match(r'"((?:[^"\\]|\\.)*)"', arg)
            if mm: chunk = _strbytes(mm.group(1)) + (b'\0' if d == 'string' else b'')
        if chunk:
            for c in cur: data[c] += chunk
    for a in list(alias):
        b, off = alias[a]; seen = 0
        while b in alias and seen < 50:
            b, o2 = alias[b]; off += o2; seen += 1
        if b in data:
            data[a] = bytearray(data[b][off:])
    return {k: bytes(v) for k, v in data.items()}, syms
