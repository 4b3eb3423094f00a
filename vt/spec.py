"""Parse-tree specifications: a description of a tree that can be emitted as C++ (against the real
library) and interpreted by the reference model in model.py."""
import re
import struct

U = 1 << 64  # "unbounded" count

# ---------------------------------------------------------------------------------- value types


class ParseError(Exception):
    pass


_INT = re.compile(rb'^[+-]?[0-9]+\Z')
_FLT = re.compile(rb'^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\Z')


class Ty:
    """name: key, cpp: C++ type, parse(bytes)->value, fmt(value)->canonical text, lit(value)->C++"""

    def __init__(self, name, cpp, parse, fmt, lit, default, elem=None, lo=None, hi=None):
        self.name, self.cpp, self.parse, self.fmt, self.lit = name, cpp, parse, fmt, lit
        self.default, self.elem, self.lo, self.hi = default, elem, lo, hi


def _int(name, cpp, bits, signed):
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)

    def parse(t):
        if not _INT.match(t):
            raise ParseError
        v = int(t)
        if v < lo or v > hi:
            raise ParseError
        return v

    tag = ('i' if signed else 'u') + str(bits)
    return Ty(name, cpp, parse, lambda v: f'{tag}:{v}',
              lambda v: f'{cpp}{{{v}{"" if signed else "u"}}}' if v != -(1 << 63) else 'INT64_MIN',
              0, lo=lo, hi=hi)


def _f64_fmt(v):
    return 'f64:%016x' % struct.unpack('<Q', struct.pack('<d', v))[0]


def _f64_parse(t):
    if not _FLT.match(t):
        raise ParseError
    v = float(t)
    if v in (float('inf'), float('-inf')):
        raise ParseError
    return v


_TRUE = {b'true', b'yes', b'y', b'on', b'1', b'enable'}
_FALSE = {b'false', b'no', b'n', b'off', b'0', b'disable'}


def _bool_parse(t):
    if t in _TRUE:
        return True
    if t in _FALSE:
        return False
    raise ParseError


THEME = {b'NONE': 0, b'DARK': 1, b'LIGHT': 2}


def _theme_parse(t):
    if t not in THEME:
        raise ParseError
    return THEME[t]


def cstr(b):
    if isinstance(b, str):
        b = b.encode()
    return '"' + ''.join(chr(c) if 32 <= c < 127 and c not in (34, 92, 63) else '\\%03o' % c
                         for c in b) + '"'


TYPES = {}


def _reg(t):
    TYPES[t.name] = t
    return t


_reg(_int('i8', 'std::int8_t', 8, True))
_reg(_int('u8', 'std::uint8_t', 8, False))
_reg(_int('i16', 'std::int16_t', 16, True))
_reg(_int('u16', 'std::uint16_t', 16, False))
_reg(_int('i32', 'std::int32_t', 32, True))
_reg(_int('u32', 'std::uint32_t', 32, False))
_reg(_int('i64', 'std::int64_t', 64, True))
_reg(_int('u64', 'std::uint64_t', 64, False))
_reg(Ty('f64', 'double', _f64_parse, _f64_fmt, lambda v: repr(float(v)), 0.0))
_reg(Ty('bool', 'bool', _bool_parse, lambda v: 'b%d' % v, lambda v: 'true' if v else 'false', False))
_reg(Ty('sv', 'std::string_view', lambda t: t, lambda v: 's:' + v.hex(),
        lambda v: f'std::string_view{{{cstr(v)}, {len(v)}}}', b''))
_reg(Ty('str', 'std::string', lambda t: t, lambda v: 'S:' + v.hex(),
        lambda v: f'std::string({cstr(v)}, {len(v)})', b''))
_reg(Ty('theme', 'vt::theme', _theme_parse, lambda v: f't:{v}',
        lambda v: f'static_cast<vt::theme>({v})', 0))
_reg(Ty('lvl', 'vt::level', None, lambda v: f'l:{v}', lambda v: f'static_cast<vt::level>({v})', 0))


def _hex_parse(t):
    if not re.match(rb'^[0-9a-f]{1,6}\Z', t):
        raise ParseError
    return int(t, 16)


# i32 parsed through a custom_parser policy
_reg(Ty('hex', 'std::int32_t', _hex_parse, lambda v: f'i32:{v}', lambda v: f'{v}', 0))


def _vec(e):
    t = TYPES[e]
    _reg(Ty('vec_' + e, f'std::vector<{t.cpp}>', t.parse,
            lambda v: '[' + ','.join(t.fmt(x) for x in v) + ']',
            lambda v: f'std::vector<{t.cpp}>{{' + ','.join(t.lit(x) for x in v) + '}',
            [], elem=t))


for _e in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f64', 'sv', 'str', 'theme'):
    _vec(_e)


def _opt(e):
    t = TYPES[e]
    _reg(Ty('opt_' + e, f'std::optional<{t.cpp}>', t.parse,
            lambda v: 'o-' if v is None else 'o(' + t.fmt(v) + ')',
            lambda v: f'std::optional<{t.cpp}>{{' + ('' if v is None else t.lit(v)) + '}', None))


for _e in ('i32', 'u8', 'theme'):
    _opt(_e)

# ---------------------------------------------------------------------------------------- nodes

LONG, SHORT = '--', '-'


class N:
    """A tree node.  Attributes not given are None/defaults."""
    FIELDS = dict(long=None, short=None, none=None, disp=None, desc=None, T=None, required=False,
                  default=None, has_default=False, sep=None, cmin=None, cmax=None, marker=None,
                  vmin=None, vmax=None, vrt=False, alias=(), dep=(), en=None, en_req=None,
                  en_default=None, children=(), router=False, custom=False, ename=None,
                  pname=None, pversion=None, pintro=None, paddendum=None, flat=False, fmt=None, raw=())

    def __init__(self, kind, **kw):
        self.kind = kind
        for k, v in self.FIELDS.items():
            setattr(self, k, v)
        for k, v in kw.items():
            assert k in self.FIELDS, k
            setattr(self, k, v)
        if 'default' in kw:
            self.has_default = True
        self.children = list(self.children)
        self.rid = None
        self.rec = None  # dispatcher index
        k = self.kind
        self.is_named = bool(self.long or self.short or self.none)
        if k == 'flag':
            self.T, self.min, self.max = 'bool', 0, 0
            self.has_default, self.default = True, False
        elif k == 'counting':
            self.min = self.max = 0
        elif k == 'arg':
            self.min = self.max = 1
        elif k == 'multi':
            self.min = 1 if self.cmin is None else self.cmin
            self.max = U if self.cmax is None else self.cmax
        elif k == 'pos':
            d = 0
            self.min = d if self.cmin is None else self.cmin
            self.max = U if self.cmax is None else self.cmax
            if not TYPES[self.T].elem:
                self.min = self.max = 1
                self.cmin = self.cmax = 1
        elif k == 'fwd':
            self.T = 'vec_sv'
            self.min = 0 if self.cmin is None else self.cmin
            self.max = U if self.cmax is None else self.cmax
        else:
            self.min = self.max = None

    # --- derived
    @property
    def multistage(self):
        return self.kind == 'counting'

    @property
    def no_result(self):
        return self.kind in ('mode', 'help') or bool(self.alias)

    @property
    def ty(self):
        return TYPES[self.T] if self.T else None

    def walk(self, parents=()):
        yield self, parents
        for c in self.children:
            yield from c.walk((self,) + parents)

    def tok(self):
        """Display token used in error messages."""
        if self.ename:
            return self.ename
        if self.kind in ('one_of', 'alias_group'):
            d = self.disp or ('One of: ' if self.kind == 'one_of' else 'Alias Group: ')
            return d + ','.join(c.tok() for c in self.children)
        if self.disp is not None:
            return self.disp
        if self.long:
            return LONG + self.long
        if self.short:
            return SHORT + self.short
        if self.none:
            return self.none
        return ''

    def names(self):
        r = []
        if self.long:
            r.append(('L', self.long.encode()))
        if self.short:
            r.append(('S', self.short.encode()))
        if self.none:
            r.append(('N', self.none.encode()))
        return r


def flag(*a, **k):
    return N('flag', **_nm(a, k))


def _nm(a, k):
    k = dict(k)
    for s in a:
        if s.startswith('--'):
            k['long'] = s[2:]
        elif s.startswith('-'):
            k['short'] = s[1:]
        else:
            raise ValueError(s)
    return k


def arg(T, *a, **k):
    return N('arg', T=T, **_nm(a, k))


def multi(T, *a, **k):
    return N('multi', T=T, **_nm(a, k))


def counting(T, *a, **k):
    return N('counting', T=T, **_nm(a, k))


def pos(T, disp, **k):
    return N('pos', T=T, disp=disp, **k)


def fwd(none, **k):
    return N('fwd', none=none, **k)


def mode(none, *children, **k):
    return N('mode', none=none, children=children, router=k.pop('router', True), **k)


def one_of(*children, **k):
    return N('one_of', children=children, **k)


def alias_group(*children, **k):
    return N('alias_group', children=children, **k)


def help_(*a, **k):
    return N('help', **_nm(a, k))


def root(*children, **k):
    r = N('root', children=children, **k)
    n = 0
    for c, _ in r.walk():
        if c.router:
            c.rid = n
            n += 1
    r.nrouters = n
    ens = 0
    for c, _ in r.walk():
        for e in (c.en, c.en_req):
            if e is not None:
                ens = max(ens, e + 1)
    r.nen = ens
    return r


# ------------------------------------------------------------------------------- value types

def node_value(n):
    """('t', Ty) or ('var', [Ty...]): one alternative per value carrying child of a one_of"""
    if n.kind == 'one_of':
        tys = []
        for c in n.children:
            if c.no_result:
                continue
            tys.append(TYPES[c.T])
        if len(tys) == 1:
            return ('t', tys[0])
        return ('var', tys)
    if n.kind == 'alias_group':
        for c in n.children:
            if not c.no_result:
                return ('t', TYPES[c.T])
    return ('t', TYPES[n.T])


def default_value(n):
    k, t = node_value(n)
    if k == 't':
        return t.default
    return (0, t[0].default)


def fmt_value(n, v):
    k, t = node_value(n)
    if k == 't':
        return t.fmt(v)
    return f'v{v[0]}({t[v[0]].fmt(v[1])})'


# ---------------------------------------------------------------------------------- emission

def S(s):
    return cstr(s) + '_S'


class Emit:
    """Emits a tree; str_mode 'cpp20' or 'cpp17' selects the compile-time string form."""

    def __init__(self, cpp17=False):
        self.cpp17 = cpp17

    def s(self, x):
        if self.cpp17:
            return f'S_({cstr(x)}){{}}'
        return S(x)

    def st(self, x):
        return f'decltype({self.s(x)})' if not self.cpp17 else f'S_({cstr(x)})'

    def node(self, n):
        k = n.kind
        p = []
        if k == 'pos':
            p.append(self.s(n.disp))
        elif k in ('one_of', 'alias_group', 'root'):
            if n.disp:
                p.append(f'arp::display_name_t{{{self.s(n.disp)}}}')
        elif k in ('mode',):
            if n.none:
                p.append(self.s(n.none))
        elif k == 'fwd':
            p.append(self.s(n.none))
        else:
            if n.long:
                p.append(self.s(n.long) if len(n.long) > 1 else f'arp::long_name_t{{{self.s(n.long)}}}')
            if n.short:
                p.append(self.s(n.short) if n.long else f'arp::short_name_t{{{self.s(n.short)}}}')
            if n.none:
                p.append(f'arp::none_name_t{{{self.s(n.none)}}}')
        if n.desc is not None:
            if k in ('pos', 'mode', 'fwd') or n.long:
                p.append(self.s(n.desc))
            else:
                p.append(f'arp::description_t{{{self.s(n.desc)}}}')
        if n.ename:
            p.append(f'arp::error_name_t{{{self.s(n.ename)}}}')
        if n.required:
            p.append('arp::required')
        if n.has_default and k != 'flag':
            p.append(f'arp::default_value<{self.vtype(n)}>{{{self.vlit(n, n.default)}}}')
        if n.sep:
            p.append(f'arp::value_separator_t{{{self.s(n.sep)}}}')
        if n.cmin is not None or n.cmax is not None:
            lo = 0 if n.cmin is None else n.cmin
            hi = U if n.cmax is None else n.cmax
            if lo == hi:
                p.append(f'arp::fixed_count<{lo}>')
            elif hi == U:
                p.append(f'arp::min_count<{lo}>')
            elif lo == 0 and n.kind == 'pos':
                p.append(f'arp::max_count<{hi}>')
            else:
                p.append(f'arp::min_max_count<{lo},{hi}>')
        if n.marker:
            p.append(f'arp::token_end_marker_t{{{self.s(n.marker)}}}')
        if n.vmin is not None or n.vmax is not None:
            t = TYPES[n.T] if n.T else node_value(n)[1]
            lit = lambda v: t.lit(v)
            if n.vrt:
                if n.vmin is not None and n.vmax is not None:
                    p.append(f'arp::min_max_value<{t.cpp}>({lit(n.vmin)},{lit(n.vmax)})')
                elif n.vmin is not None:
                    p.append(f'arp::min_value<{t.cpp}>({lit(n.vmin)})')
                else:
                    p.append(f'arp::max_value<{t.cpp}>({lit(n.vmax)})')
            elif n.vmin is not None and n.vmax is not None:
                p.append(f'arp::min_max_value<{lit(n.vmin)},{lit(n.vmax)}>()')
            elif n.vmin is not None:
                p.append(f'arp::min_value<{lit(n.vmin)}>()')
            else:
                p.append(f'arp::max_value<{lit(n.vmax)}>()')
        if n.custom:
            p.append('arp::custom_parser<std::int32_t>{vt::parse_hex}')
        if k == 'help':
            for a, b in (('pname', 'name'), ('pversion', 'version'), ('pintro', 'intro'), ('paddendum', 'addendum')):
                if getattr(n, a):
                    p.append(f'arp::program_{b}_t{{{self.s(getattr(n, a))}}}')
            if n.flat:
                p.append('arp::flatten_help')
            if n.fmt:
                p.append(n.fmt)
        p.extend(n.raw)
        if n.alias:
            p.append('arp::alias(' + ', '.join(self.nameref(x) for x in n.alias) + ')')
        if n.dep:
            p.append('arp::dependent(' + ', '.join(self.nameref(x) for x in n.dep) + ')')
        if n.en is not None:
            p.append(f'arp::runtime_enable{{en[{n.en}]}}')
        if n.en_req is not None:
            p.append(f'arp::runtime_enable_required<{self.vtype(n)}>'
                     f'{{en[{n.en_req}], {self.vlit(n, n.en_default)}}}')
        kids = [self.node(c) for c in n.children]
        if n.router and k == 'help':
            p.append(f'arp::router{{[](auto s) {{ vt::route_help({n.rid}, s.str()); }}}}')
        elif n.router:
            p.append(f'arp::router{{[](auto... a) {{ vt::route({n.rid}, std::move(a)...); }}}}')
        if k == 'root':
            p.append('arp::validation::default_validator')
        p = self.arrange(n, p, kids)
        if k == 'root':
            return 'ar::root(' + ',\n'.join(p) + ')'
        fn = {'flag': 'ar::flag', 'arg': 'ar::arg<%s>', 'multi': 'ar::multi_arg<%s>',
              'counting': 'ar::counting_flag<%s>', 'pos': 'ar::positional_arg<%s>',
              'fwd': 'ar::forwarding_arg', 'mode': 'ar::mode', 'one_of': 'ard::one_of',
              'alias_group': 'ard::alias_group', 'help': 'ar::help'}[k]
        if '%s' in fn:
            fn = fn % n.ty.cpp
        return f'{fn}(' + ',\n '.join(p) + ')'

    def arrange(self, n, p, kids):
        """The order of a node's parameters: policies and children."""
        r = n.router and [p.pop(-1 - (n.kind == 'root'))] or []
        v = n.kind == 'root' and [p.pop()] or []
        return v + p + kids + r

    def vtype(self, n):
        k, t = node_value(n)
        if k == 't':
            return t.cpp
        return 'std::variant<' + ','.join(x.cpp for x in t) + '>'

    def vlit(self, n, v):
        k, t = node_value(n)
        if k == 't':
            return t.lit(v if v is not None or t.name.startswith('opt') else t.default)
        if v is None:
            v = (0, t[0].default)
        return self.vtype(n) + f'{{std::in_place_index<{v[0]}>, {t[v[0]].lit(v[1])}}}'

    def nameref(self, x):
        if x.startswith('--'):
            return f'arp::long_name_t{{{self.s(x[2:])}}}'
        return f'arp::short_name_t{{{self.s(x[1:])}}}'


class NotationEmit(Emit):
    """The same tree, written in another of the notations the library documents as equivalent: names and descriptions as
    policies or as plain strings, policies in any order and among the children, runs of children in lists."""

    def __init__(self, rng, cpp17=False):
        super().__init__(cpp17)
        self.rng = rng
        self.used = {'named': 0, 'list': 0, 'moved': 0}

    def arrange(self, n, p, kids):
        r = self.rng
        # strings are told apart by their order, so that is kept
        strs = [x for x in p if re.match(r'S_\(|"', x)]
        rest = [x for x in p if x not in strs]
        if strs and n.kind not in ('pos', 'mode', 'fwd') and r.random() < .6:
            # all names at once: the explicit form of a label, its short form and description
            names = []
            if n.long:
                names.append(f'arp::long_name_t{{{self.s(n.long)}}}')
            if n.short:
                names.append(f'arp::short_name_t{{{self.s(n.short)}}}')
            if n.desc is not None:
                names.append(f'arp::description_t{{{self.s(n.desc)}}}')
            rest = [x for x in rest if x not in names] + names
            strs = []
            self.used['named'] += 1
        elif strs and n.desc is not None and strs[-1] == self.s(n.desc) and r.random() < .4:
            strs.pop()
            rest.append(f'arp::description_t{{{self.s(n.desc)}}}')
            self.used['named'] += 1
        seq = []
        i = 0
        while i < len(kids):
            k = 1
            if n.kind in ('root', 'mode') and r.random() < .5:
                while i + k < len(kids) and k < 4 and r.random() < .7:
                    k += 1
                seq.append('ar::list{' + ', '.join(kids[i:i + k]) + '}')
                self.used['list'] += 1
            else:
                seq.append(kids[i])
            i += k
        r.shuffle(rest)
        # merge three ordered runs at random
        self.used['moved'] += len(rest) > 1
        out, runs = [], [x for x in (strs, rest, seq) if x]
        while runs:
            q = r.choices(runs, [len(x) for x in runs])[0]
            out.append(q.pop(0))
            runs = [x for x in runs if x]
        return out


class UserEmit(Emit):
    """The same tree with policies, nodes and validator replaced by the user-written ones of vt_user.hpp, each with probability p."""

    NODES = {'flag': 'flag', 'arg': 'arg', 'multi': 'multi_arg', 'pos': 'positional_arg', 'counting': 'counting_flag'}
    POLICIES = ('error_name_t', 'required', 'default_value', 'value_separator_t', 'token_end_marker_t', 'fixed_count', 'min_count',
                'max_count', 'min_max_count', 'min_max_value', 'min_value', 'max_value', 'custom_parser', 'runtime_enable',
                'runtime_enable_required', 'router', 'none_name_t', 'display_name_t', 'description_t')

    def __init__(self, rng, p=.6, cpp17=False, formatter='rt_formatter'):
        super().__init__(cpp17)
        self.rng, self.p, self.formatter = rng, p, formatter
        self.own = {}
        self.used = {}
        self.own_pos = rng.random() < max(p, .5)    # all or none: the validator's order rule is about one node type

    def note(self, what):
        self.used[what] = self.used.get(what, 0) + 1

    def user_name(self, x):
        """Whether the name is given by a user policy: the same wherever the name is mentioned."""
        if x not in self.own:
            self.own[x] = self.rng.random() < self.p
        return self.own[x]

    def name(self, kind, x):
        u = self.user_name((kind, x))
        if u:
            self.note(kind)
        return f'{"vtu" if u else "arp"}::{kind}_t{{{self.s(x)}}}'

    def nameref(self, x):
        return self.name('long_name', x[2:]) if x.startswith('--') else self.name('short_name', x[1:])

    def arrange(self, n, p, kids):
        p = super().arrange(n, p, [])
        r = self.rng
        n.user = n.kind in self.NODES and (self.own_pos if n.kind == 'pos' else r.random() < self.p)
        strs = [x for x in p if re.match(r'S_\(|"', x)]
        rest = [x for x in p if x not in strs]
        if n.kind in ('pos', 'mode', 'fwd'):
            kinds = ['display_name' if n.kind == 'pos' else 'none_name', 'description']
            texts = list(zip(kinds, [n.disp if n.kind == 'pos' else n.none, n.desc]))
        else:
            texts = [('long_name', n.long), ('short_name', n.short), ('description', n.desc)]
            rest = [x for x in rest if not re.match(r'arp::(long_name|short_name|description)_t', x)]
        texts = [(k, t) for k, t in texts if t is not None]
        if n.user and texts and all(k not in ('long_name', 'short_name') or self.user_name((k, t)) for k, t in texts) and \
                (n.kind == 'pos' or n.long) and r.random() < .5:
            names = [self.s(t) for _, t in texts]       # strings, mapped to the user's policies by the node's factory
            self.note('mapped_strings')
        else:
            names = []
            for k, t in texts:
                if k in ('long_name', 'short_name'):
                    names.append(self.name(k, t))
                else:
                    names.append(f'arp::{k}_t{{{self.s(t)}}}')
        out = []
        if n.kind == 'help':
            base = [x for x in rest if x in ('arp::colour_help_formatter', 'arp::default_help_formatter')]
            rest = [x for x in rest if x not in base]
            base = (base or ['arp::default_help_formatter'])[0]
            rest.insert(0, f'vtu::{self.formatter}<{base}_t<>>{{}}')
            self.note(self.formatter)
        if n.kind == 'root' and not any('exception_translator' in x for x in rest):
            rest.insert(0, 'vtu::translator<arp::exception_translator_t<ar::default_error_code_translations, void>>{}')
            self.note('translator')
        for x in names + rest:
            m = re.match(r'arp::(\w+)', x)
            if m and m.group(1) in self.POLICIES and r.random() < self.p:
                if not (n.kind == 'root' and m.group(1) == 'router'):
                    x = 'vtu::' + x[5:]
                    self.note(m.group(1))
            elif x == 'arp::validation::default_validator':
                x = 'vtu::validator{}'
            out.append(x)
        if n.user:
            self.note('node_' + n.kind)
        return out[:-1] + kids + out[-1:] if n.router else out + kids

    def node(self, n):
        x = super().node(n)
        if getattr(n, 'user', False):
            fn = self.NODES[n.kind]
            x = x.replace('ar::' + fn, 'vtu::' + fn, 1)
        return x


def emit_tu(tree, cpp17=False, extra='', e=None, languages=()):
    e = e or Emit(cpp17)
    body = e.node(tree)
    if languages:   # the same tree in every language
        body = 'ar::multi_lang::root<' + ', '.join(f'ar::str<{cstr(x)}>' for x in languages) + \
            f'>(std::string_view{{{cstr(languages[-1])}}}, [=](auto) {{ return {body}; }})'
    return f'''#include "vt_main.hpp"
{extra}
static auto make([[maybe_unused]] const bool* en) {{
    return {body};
}}
int main(int argc, char** argv) {{
    return vt::run(argc, argv, [](const bool* en) {{
        using root_t = decltype(make(en));
        return std::unique_ptr<root_t>(new root_t(make(en)));
    }});
}}
'''
