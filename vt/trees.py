"""Handcrafted parse trees, each aimed at a group of features."""
from . import spec
from .spec import *  # noqa


def _d(n):
    return n


TREES = {}


def tree(fn):
    TREES[fn.__name__] = fn
    return fn


@tree
def scalars():
    """One named argument of every scalar type in an anonymous mode."""
    return root(mode(None,
                     arg('i8', '--i8', '-a'), arg('u8', '--u8', '-b'),
                     arg('i16', '--i16', '-c', default=-5), arg('u16', '--u16', '-d'),
                     arg('i32', '--i32', '-e', required=True), arg('u32', '--u32'),
                     arg('i64', '--i64'), arg('u64', '--u64', '-U'),
                     arg('f64', '--f64', '-f'), arg('bool', '--bool'),
                     arg('sv', '--sv', '-s'), arg('str', '--str', default=b'dflt'),
                     arg('theme', '--theme', default=2), arg('opt_i32', '--oi'), arg('opt_u8', '--ou'),
                     arg('hex', '--hex', custom=True)))


@tree
def lists():
    """Positional lists of every count policy."""
    return root(
        mode('min', pos('i32', 'FIRST'), pos('vec_i32', 'REST', cmin=2)),
        mode('max', pos('vec_sv', 'REST', cmax=2, cmin=0)),
        mode('minmax', flag('--go', '-g'), pos('vec_str', 'REST', cmin=1, cmax=3)),
        mode('fix', pos('vec_u8', 'TWO', cmin=2, cmax=2), pos('sv', 'ONE')),
        mode('free', pos('vec_f64', 'ALL')),
        mode('reqd', pos('i32', 'A', required=True), pos('vec_i32', 'B', required=True, cmin=1)),
        mode('dflt', pos('i32', 'A', default=9), pos('vec_i32', 'B', default=[1, 2, 3])))


@tree
def multis():
    """multi_arg with markers, bounds and separators beside flags and forwarding arguments."""
    return root(
        mode('mm', flag('--go', '-g'), multi('vec_i32', '--nums', '-n', marker=';'),
             multi('vec_str', '--strs', cmin=2, cmax=2), pos('vec_sv', 'TAIL')),
        mode('last', flag('--go', '-g'), arg('i32', '--kk', '-k'),
             multi('vec_sv', '--words', '-w')),
        mode('bound', multi('vec_i32', '--two', '-t', cmin=2, cmax=4, marker='--'), flag('-q', desc='quiet'),
             pos('vec_i32', 'P', cmin=0, cmax=2)),
        mode('fwd', flag('--go', '-g'), arg('i32', '--kk', '-k', default=3), fwd('--')),
        mode('pmark', pos('vec_sv', 'A', marker=';'), pos('vec_sv', 'B')),
        mode('fwdmin', flag('-v', desc='verb'), fwd('++', cmin=1, required=True)))


@tree
def marks():
    """A bounded list that may end before it starts; separators that share bytes with names and values."""
    return root(
        mode('pm', pos('vec_sv', 'A', cmin=0, cmax=2, marker=';'), pos('vec_sv', 'B')),
        mode('sb', arg('sv', '--größe', '-ä', sep='é'), arg('str', '--設定', sep='→')))


@tree
def flags():
    """Short groups over flags, counting flags and non-flag shorts."""
    return root(
        mode('gg', flag('-a', desc='aa'), flag('-b', desc='bb'), flag('--cc', '-c'), flag('--ab'),
             counting('u32', '--verbose', '-v'), counting('lvl', '-l', desc='level', vmax=4),
             arg('i32', '-x', desc='xx'), pos('vec_sv', 'ARGS')),
        mode('uu', flag('-é', desc='e acute'), flag('--été', '-日'), counting('i32', '-ß', '--ss'),
             arg('sv', '--größe', '-ö', sep='=')),
        mode('nn', flag('--ab'), flag('-a', desc='aa'), counting('u8', '-Z', desc='zz', vmin=0, vmax=3),
             counting('i32', '-r', desc='rr', default=5)))


@tree
def seps():
    """Value separators of one and several bytes."""
    return root(
        mode('ss', arg('sv', '--out', '-o', sep='='), arg('i32', '--num', '-n', sep=':'),
             arg('str', '--uni', '-u', sep='→'), flag('--flag', '-f'),
             arg('i32', '--plain', '-p'), pos('vec_sv', 'REST')),
        mode('dd', arg('i32', '--a1', sep='=', default=4), arg('sv', '--ab', sep='=', required=True),
             arg('bool', '--abc', sep='=')))


@tree
def nested():
    """Nested named modes, with and without routers, plus an anonymous mode."""
    return root(
        mode('build', mode('all', flag('--force', '-f'), pos('vec_sv', 'T')),
             mode('one', arg('i32', '--jobs', '-j', required=True),
                  mode('deep', arg('i32', '--jobs', '-j'), flag('--dry', '-d')), pos('sv', 'T', required=True)),
             arg('i32', '--level', '-l'), flag('--verbose', '-v')),
        mode('run', mode('now', flag('--xx', '-x')), mode('later', arg('u16', '--at', required=True)),
             router=False),
        mode(None, flag('--version-info', '-V'), arg('sv', '--cfg', '-c', default=b'cfg'),
             pos('vec_sv', 'FILES')))


@tree
def reqs():
    """required / default / implicit default over every node kind."""
    return root(
        mode('aa', arg('i32', '--r1', required=True), arg('i32', '--d1', default=77), arg('i32', '--i1'),
             multi('vec_i32', '--r2', required=True, marker=';'), multi('vec_i32', '--d2', default=[4, 5], marker=';'),
             flag('--f1', '-f'), counting('i32', '-v', desc='vv'), arg('opt_i32', '--o1'),
             arg('opt_u8', '--o2', default=9), pos('vec_sv', 'P', required=True, cmin=1)),
        mode('bb', counting('i32', '-v', desc='vv'), arg('theme', '--th', default=1),
             arg('sv', '--nm', required=True), pos('i32', 'Q', required=True)),
        mode('cc', counting('i32', '-v', desc='vv', default=6), arg('f64', '--pi', default=3.25),
             arg('bool', '--yn', default=True), pos('vec_i32', 'P', default=[8])))


@tree
def bounds():
    """min/max value, compile time and run time."""
    return root(
        mode('ct', arg('i32', '--aa', vmin=-3, vmax=20), arg('u8', '--bb', vmin=2),
             arg('i64', '--cc', vmax=-10, default=-20), counting('u32', '-v', desc='vv', vmin=0, vmax=2),
             pos('i32', 'P', vmin=5, vmax=6, default=5)),
        mode('rt', arg('i32', '--aa', vmin=-3, vmax=20, vrt=True), arg('u64', '--bb', vmin=2, vrt=True, default=7),
             arg('f64', '--cc', vmax=2.5, vrt=True), arg('f64', '--dd', vmin=-1.5, vmax=1.5, vrt=True),
             arg('i32', '--ee', vmin=1, vmax=3, default=2)),
        mode('cnt', counting('i32', '-v', desc='vv', vmin=2, vmax=3), flag('-q', desc='qq'),
             counting('i64', '-w', desc='ww', vmax=2)))


@tree
def aliases():
    """Flag and argument aliases, several targets, next to the targets."""
    return root(
        mode('ff', flag('--all', '-a', alias=('--one', '-b', '--cnt')), flag('--one'), flag('-b', desc='bb'),
             counting('i32', '--cnt', '-c'), pos('vec_sv', 'P')),
        mode('vv', arg('i32', '--both', '-B', alias=('--xx', '--yy')), arg('i32', '--xx', '-x'),
             arg('i32', '--yy', '-y', required=True), arg('sv', '--zz', default=b'zz'), flag('-q', desc='qq')),
        mode('mm', multi('vec_i32', '--pair', alias=('--lo',), cmin=2, cmax=2),
             multi('vec_i32', '--lo', cmin=2, cmax=2, required=True), flag('--go', '-g')))


@tree
def deps():
    """dependent arguments, singly and in chains."""
    return root(
        mode('dd', flag('--base', '-b'), arg('i32', '--val', '-v', dep=('--base',)),
             flag('--both', dep=('--base', '--val')), arg('sv', '--free', '-f'),
             flag('-Z', desc='zz', dep=('--free',)), pos('vec_sv', 'P')),
        mode('ee', arg('i32', '--self-req', required=True), counting('i32', '-c', desc='cc', dep=('--self-req',)),
             multi('vec_sv', '--many', marker=';', dep=('-c',))))


@tree
def groups():
    """one_of and alias_group, required and defaulted, mixed types and list children."""
    return root(
        mode('oo', one_of(arg('i32', '--num', '-n'), arg('sv', '--str', '-s'), flag('--flag', '-f'),
                         required=True), flag('--other', '-o'), pos('vec_sv', 'P')),
        mode('pp', one_of(arg('i32', '--num', '-n', vmin=1, vmax=5), flag('--flag'), arg('sv', '--strv'),
                         default=None), arg('i32', '--kk', default=4)),
        mode('hh', one_of(arg('i32', '--aa'), arg('i32', '--bb'), arg('sv', '--cc'), flag('--dd'), arg('sv', '--ee'),
                          default=(1, 12)), arg('i32', '--zz', '-z')),
        mode('gg', alias_group(arg('i32', '--red', '-r'), arg('i32', '--rouge'), default=3),
             flag('--other', '-o')),
        mode('qq', alias_group(arg('sv', '--colour', '-c'), arg('sv', '--color', sep='='), required=True),
             counting('i32', '-v', desc='vv')),
        mode('mm', one_of(multi('vec_i32', '--list', marker=';'), arg('theme', '--th'), required=True),
             arg('sv', '--xx')))


@tree
def toggles():
    """runtime enabled / disabled nodes at every level."""
    return root(
        flag('--rootflag', '-R', en=1, router=True),
        mode('aa', flag('--one', '-1', en=0), arg('i32', '--two', '-2', en=1), flag('--three', '-3'),
             arg('i32', '--four', en_req=2, en_default=44), counting('i32', '-v', desc='vv', en=0),
             pos('vec_sv', 'P', en=1)),
        mode('bb', flag('--b1'), arg('sv', '--b2', '-s'), en=2),
        mode('cc', mode('sub', arg('i32', '--s1'), en=0), mode('sub2', arg('i32', '--s2', required=True)),
             flag('--cf')),
        mode(None, arg('i32', '--anon', default=6), flag('--af', '-a', en=0)))


@tree
def toggles2():
    """Whole modes that can be switched off, the anonymous one too."""
    return root(
        flag('--info', '-i', router=True, en=1),
        mode('aa', flag('--one', '-1'), arg('i32', '--two', '-2'), en=0),
        mode('bb', mode('ab', flag('--three'), en=1), flag('--four', '-4', en=0), counting('i32', '-v', desc='vv', en=3),
             flag('--all', '-A', alias=('-4', '-v')), pos('vec_sv', 'P'), en=2),
        mode(None, flag('--one', '-1', en=0), arg('i32', '--anon', '-a', default=6), multi('vec_i32', '--more', '-m', marker=';'), en=3))


@tree
def rootnodes():
    """Children with routers directly under the root."""
    return root(
        flag('--info', '-i', router=True), arg('i32', '--num', '-n', router=True),
        arg('sv', '--sep', '-s', sep='=', router=True),
        mode('mm', flag('--xx', '-x'), arg('i32', '--num', '-n')))


@tree
def rootvals():
    """Root level arguments with bounds, separators, counts and validation of their own."""
    return root(
        arg('i32', '--num', '-n', vmin=1, vmax=9, router=True), arg('i64', '--big', vmin=-5, vmax=5, vrt=True, router=True),
        arg('u8', '--sep', '-s', sep='=', vmax=100, router=True), arg('i32', '--when', vmax=3, en=0, router=True),
        arg('u8', '--odd', vmin=3, router=True), arg('f64', '--real', sep=':', vmax=2.5, vrt=True, router=True),
        arg('sv', '--text', '-t', router=True), flag('--go', '-g', router=True),
        mode('mm', flag('--xx', '-x'), arg('i32', '--num', '-n', vmin=0)))


@tree
def names():
    """Names close to each other and to prefixes; error and display names."""
    return root(
        mode('serve', arg('i32', '--port', '-p', vmax=100), arg('i32', '--ports', ename='PORTS!', vmax=50),
             flag('--sport', '-P'), flag('-q', desc='quiet'), flag('--a-b'), arg('sv', '--été', required=True)),
        mode('server', one_of(arg('i32', '--alpha'), flag('--alphas'), required=True, disp='ab choice'),
             flag('--dry-run', '-n'), arg('i32', '--必須', required=True)),
        mode('save', alias_group(arg('i32', '--speed'), arg('i32', '--speeds'), required=True),
             multi('vec_i32', '--vals', '-v', cmin=2, cmax=3, marker=';'), pos('vec_sv', 'FILES', cmin=1, cmax=2)),
        flag('--help-me', '-h', router=True))


@tree
def nearby():
    """Names of different scripts and sizes: the nearest in letters is not the nearest in bytes or code points."""
    return root(
        mode('aa', flag('--abc'), flag('--設定'), flag('--abcdefgh', '-x')),
        mode('bb', flag('--日本語設'), flag('--abcde'), arg('i32', '--größer', default=1)),
        mode('cc', flag('--e\u0301e\u0301'), flag('--eee'), flag('--eeeeee'), flag('--🎈🎈')),
        mode('dd', flag('--wxyz'), flag('-é'), flag('-z', '--zzzzz')),
        mode('ee', flag('--ключ'), flag('--kluch'), flag('--κλειδί'), flag('--키키키')))


@tree
def counts():
    """Count bounds, end markers and forwarding arguments in combination."""
    return root(
        mode('aa', multi('vec_i32', '--mn', '-m', cmin=2, cmax=3, marker=';'), multi('vec_sv', '--fx', cmin=2, cmax=2),
             pos('sv', 'ONE'), pos('vec_sv', 'REST', cmin=1, cmax=2)),
        mode('bb', multi('vec_sv', '--un', '-u', marker='--'), multi('vec_sv', '--mx', cmin=1, cmax=2,
                                                                        marker='--'), fwd('--', cmin=2)),
        mode('cc', pos('vec_sv', 'HEAD', cmin=1, cmax=2, marker='+'), pos('vec_sv', 'MID', marker='+'),
             pos('i32', 'LAST')),
        mode('dd', flag('--go', '-g'), fwd('--', cmax=2)),
        mode('ee', one_of(multi('vec_sv', '--li', marker='。'), arg('i32', '--nn'), required=True),
             multi('vec_sv', '--ls', cmin=1, cmax=3)))


@tree
def bounds2():
    """Value bounds at the edges of every value type."""
    return root(
        mode('aa', arg('i8', '--i8', vmin=-128, vmax=5), arg('u8', '--u8', vmin=1, vmax=254),
             arg('i16', '--i16', vmin=-300), arg('u16', '--u16', vmax=65534),
             arg('i64', '--i64', vmin=-(1 << 62), vmax=(1 << 62)), arg('u64', '--u64', vmax=(1 << 64) - 2),
             arg('u32', '--u32', vmin=7, vmax=7, default=7)),
        mode('bb', arg('i8', '--i8', vmin=-3, vmax=3, vrt=True), arg('u64', '--u64', vmax=1 << 63, vrt=True),
             arg('i64', '--i64', vmin=-(1 << 40), vrt=True, required=True),
             pos('u16', 'P', vmin=3, vmax=9, vrt=True, default=4)),
        mode('cc', one_of(arg('i32', '--num', vmin=1, vmax=5), arg('f64', '--fl', vmin=0.5, vmax=0.75, vrt=True),
                          required=True), arg('i32', '--al', '-A', alias=('--tgt',)),
             arg('i32', '--tgt', vmin=-1, vmax=1), arg('i32', '--bad', vmin=5, default=1)))


@tree
def counters():
    """Repeatable flags of several value types, with bounds, defaults and short groups."""
    return root(
        mode('aa', counting('u8', '--aa', '-a'), counting('i64', '-b', desc='bb', default=-3),
             counting('lvl', '--cc', '-c', vmax=3), flag('-f', desc='ff'), pos('vec_sv', 'P')),
        mode('bb', counting('i32', '-v', '--vv', vmin=2, vmax=4), counting('u32', '--ww', vmin=1, default=1),
             arg('i32', '--xx', '-x'), flag('--dep', '-d', dep=('-v',))),
        mode('cc', counting('i32', '-q', desc='qq', en=0), counting('i32', '-r', desc='rr', dep=('--on',)),
             flag('--on', '-o'), flag('--both', '-B', alias=('-r', '--on'))))


@tree
def deps2():
    """Dependencies on group members, on aliases and across kinds."""
    return root(
        mode('aa', one_of(arg('i32', '--num', '-n'), flag('--flag', '-f'), required=True),
             arg('sv', '--needs-num', dep=('--num',)), flag('-x', desc='xx', dep=('-f',)),
             flag('--al', '-a', alias=('--ta', '-u')), flag('--ta'), flag('-u', desc='uu'),
             arg('i32', '--on-ta', dep=('--ta',))),
        mode('bb', arg('i32', '--aa', '-a'), arg('i32', '--bb', '-b', dep=('-a',)),
             arg('i32', '--cc', '-c', dep=('--bb',), default=3),
             multi('vec_sv', '--dd', '-d', dep=('--aa', '--cc'))),
        mode('cc', one_of(arg('i32', '--pp', dep=('--gate',)), arg('sv', '--qq'), default=(0, 5)),
             flag('--gate', '-g')))


@tree
def dupnames():
    """Same names in different modes; flag and value siblings."""
    return root(
        mode('one', flag('--same', '-s'), arg('i32', '--val', '-v'), pos('vec_sv', 'P')),
        mode('two', arg('i32', '--same', '-s'), flag('--val', '-v')),
        mode('four', mode('one', arg('i32', '--twin', '-t'), flag('--ft'), counting('u32', '-c', desc='cc'),
                          mode('six', flag('--ft'), pos('vec_sv', 'P'))),
             mode('five', arg('i32', '--twin', '-t'), pos('vec_sv', 'P')),
             flag('--ft'), arg('i32', '--twin', '-t'), counting('u32', '-c', desc='cc'), pos('vec_sv', 'P')),
        mode('three', mode('one', multi('vec_i32', '--same', '-s')), mode('two', counting('i32', '--same', '-s'),
                                                                     pos('i32', 'P')),
             arg('sv', '--same', '-s')),
        mode(None, arg('f64', '--same', '-s'), arg('sv', '--val', '-v'), pos('vec_i32', 'P')))


# ------------------------------------------------------------------------------------ help trees

PROSE = 'The quick brown fox jumps over the lazy dog and then keeps running through the long grass until dusk'


def described(desc=None):
    d = desc or (lambda i: None)
    c = iter(range(1000))
    w = lambda: d(next(c))
    return [
        mode('copy', mode('fast', flag('--sure', '-s', desc=w()), arg('i32', '--lvl', vmin=-3, vmax=20, desc=w()),
                          desc=w()),
             arg('u16', '--num', '-n', vmax=7, desc=w()), arg('i64', '--low', vmin=-5000000000, desc=w()),
             arg('i32', '--top', vmax=9, desc=w()), flag('--quiet', '-q', desc=w(), en=0),
             arg('sv', '--out', '-o', sep='=', desc=w()), arg('u8', '--eq', sep='→', vmin=1, vmax=3, desc=w()),
             multi('vec_i32', '--vals', cmin=2, cmax=4, marker=';', desc=w()),
             multi('vec_sv', '--strs', '-S', marker=';', desc=w()), pos('sv', 'SRC', desc=w()),
             pos('vec_sv', 'REST', cmin=1, cmax=3, desc=w()), desc=w()),
        mode('move', one_of(arg('i32', '--aa', desc=w()), flag('--bb', '-b', desc=w(), en=1),
                            multi('vec_i32', '--cc', cmin=2, cmax=2, desc=w(), en=2), default=(0, 0)),
             alias_group(arg('i32', '--red', '-r', desc=w()), arg('i32', '--rouge', desc=w(), en=1), default=1,
                         disp='Colour of paint'),
             counting('u32', '--many', '-m', desc=w()), mode('sub', flag('--xx', desc=w()), fwd('--', desc=w()),
                                                              en=2, desc=w()),
             fwd('--', cmin=2, desc=w()), desc=w(), en=3),
        mode('größe', arg('i32', '--日本', '-日', desc=w()), flag('--été', '-é', desc=w()), pos('vec_i32', 'ÀÉ', desc=w())),
    ]


def anon(desc=None):
    d = desc or (lambda i: None)
    return mode(None, flag('--ff', '-f', desc=d(1), en=0), arg('f64', '--real', desc=d(2)),
                one_of(arg('i32', '--p1', desc=d(3)), arg('sv', '--p2', desc=d(4)), required=True),
                pos('vec_sv', 'FILES', desc=d(5)))


@tree
def help1():
    """Everything that can be listed, default formatter, with an anonymous mode."""
    d = lambda i: None if i % 7 == 3 else 'Text number %d' % i
    return root(help_('--help', '-h', desc='Show this', router=True, pname='prog', pversion='v1.2',
                      pintro='An intro', paddendum='The end'),
                flag('--info', '-i', router=True, desc='Information'), described(d)[0], anon(d))


@tree
def help2():
    """The same nodes, flattened, coloured, no anonymous mode."""
    d = lambda i: None if i % 5 == 3 else 'Words %d' % i
    return root(arg('i32', '--rootarg', '-R', router=True, desc='Root argument', en=1),
                help_('--help', desc='Show', router=True, flat=True, pintro='Intro ünïcode',
                      fmt='arp::colour_help_formatter'), *described(d)[1:])


def prose(i):
    ws = PROSE.split()
    ws = ws[i % 7:] + ws[:i % 5]
    t = ' '.join(ws[:3 + i % 19])
    if i % 6 == 1:
        t = t.replace('fox', 'incomprehensibilities-and-more'.replace('-', ''))
    if i % 6 == 2:
        t = t.replace('over', 'über').replace('long', 'déjà')
    return t


def wordy():
    return [mode('copy', flag('--sure', '-s', desc=prose(1)), arg('i32', '--lvl', vmin=-100, vmax=2000, desc=prose(13)),
                 mode('sub', pos('vec_sv', 'X', desc=prose(20))), desc=prose(7)),
            mode(None, one_of(arg('i32', '--aa', desc=prose(2)), flag('--bb', '-b', desc='漢字日本語' * 9, en=0), required=True),
                 arg('sv', '--größe', '-日', sep='→', desc=prose(5) + '日本語 設定'), pos('vec_i32', 'ÀÉ', desc=prose(14)))]


@tree
def help3():
    """Long descriptions, default formatter."""
    return root(help_('--help', '-h', desc=PROSE, router=True, pname='wrap'), *wordy())


@tree
def help4():
    """Long descriptions, colour formatter, flattened."""
    return root(help_('-h', desc=PROSE, router=True, flat=True, fmt='arp::colour_help_formatter',
                      paddendum='fin'), *wordy())


@tree
def help5():
    """help4 with the default formatter."""
    return root(help_('-h', desc=PROSE, router=True, flat=True, paddendum='fin'), *wordy())


@tree
def help0():
    """A small tree with help, for byte level input."""
    return root(help_('--help', '-h', desc='Show this text please', router=True, pname='prog'),
                mode('gö', flag('--été', '-é', desc='Été text'), arg('i32', '--num', '-n', sep='=', vmax=100), desc='Go'),
                mode(None, flag('--ff', '-f'), pos('vec_sv', 'FILES')))


@tree
def fuzz():
    """Many features in one small tree, for coverage guided input."""
    return root(
        flag('--info', '-i', router=True),
        mode('main', mode('sub', arg('u8', '--xx', '-x', required=True), fwd('--')),
             flag('-a', '--aa'), counting('u32', '-v', '--vv', vmax=3), arg('i32', '--num', '-n', sep='='),
             one_of(arg('f64', '--pi'), multi('vec_sv', '--li', '-l', marker=';'), default=(0, 1)),
             flag('--al', '-A', alias=('-a', '--vv')), arg('sv', '--dd', dep=('--num',)), pos('vec_str', 'P', cmin=0, cmax=3)),
        mode(None, multi('vec_i32', '--ints', cmin=2, cmax=2), alias_group(arg('sv', '--colour'), arg('sv', '--color', sep='→'),
                                                                           default=b'c'), pos('vec_i64', 'Q')))


MIX_DECL = '''
struct mix_table { using error_code_translations = std::tuple<
    std::pair<traits::integral_constant<error_code::unknown_argument_with_suggestion>, decltype("Kenne {} nicht, {}?"_S)>,
    std::pair<traits::integral_constant<error_code::failed_to_parse>, decltype("Geht nicht: {/}"_S)>,
    std::pair<traits::integral_constant<error_code::missing_required_argument>, decltype("Fehlt"_S)>>; };
template <> class ar::multi_lang::translation<ar::str<"en_GB">> { public: };
template <> class ar::multi_lang::translation<ar::str<"de">> { public: };
'''


def mix():
    """Every policy in one tree, with translated errors and coloured help."""
    t = root(
        help_('--help', '-h', desc='Hilfe', router=True, pname='mix', pintro='Ein ' * 30, fmt='arp::colour_help_formatter', flat=True),
        mode('work', flag('-a', desc='aa'), flag('-b'), flag('--cc', '-c', en=0, desc='toggled'), counting('i32', '-v', vmax=4),
             arg('i32', '--level', '-l', sep='=', vmin=-3, vmax=30, vrt=True, desc='A level'), arg('f64', '--rate', default=0.5),
             arg('sv', '--out', required=True, ename='OUT'), arg('u8', '--size', dep=('--out',)),
             arg('i32', '--low', alias=('--lim', '--cap')), arg('i32', '--lim'), arg('i32', '--cap', '-C'),
             one_of(arg('i32', '--one'), flag('--two', en=1), arg('str', '--three', desc='third'), default=(0, 9)),
             alias_group(arg('i32', '--eins'), arg('i32', '--zwei', '-z'), required=True),
             multi('vec_i32', '--list', marker=';', cmin=1, cmax=3), pos('vec_str', 'FILES', cmin=1, desc='files'),
             desc='Works'),
        mode('run', flag('--quick'), fwd('--', desc='rest')),
        mode('other', mode('deep', arg('theme', '--theme', default=1), flag('--größe', '-ß')), arg('hex', '--hex', custom=True),
             pos('opt_i32', 'N')))
    t.raw = ['arp::exception_translator<mix_table>']
    return t


def emit_mix(n, t):
    """mix is translated, mixml is the same tree inside a multi-language root."""
    x = n.startswith('mix')
    return spec.emit_tu(t, extra=MIX_DECL if x else '', languages=['en_GB', 'de'] if n == 'mixml' else ())
